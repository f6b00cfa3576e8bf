"""Models of the builtins and library functions the analysed code uses (value semantics over terms)."""
import ast
import re
import string

from . import terms as t
from .terms import mk, num, const, TRUE, FALSE, NONE, ZERO, ONE, EMPTY, land, lor, lnot, ite

PI = mk('glob', 'pi')
t._PI = PI

_PREFIX = [('numpy.', 'np.'), ('matplotlib.pyplot.', 'plt.'), ('math.', 'math.')]
_SAME = {
    'math.pi': 'pi', 'np.pi': 'pi', 'np.abs': 'abs', 'np.absolute': 'abs', 'np.fabs': 'abs', 'math.fabs': 'abs',
    'np.sqrt': 'math.sqrt', 'np.floor': 'math.floor', 'np.ceil': 'math.ceil', 'np.log': 'log', 'math.log': 'log',
    'np.exp': 'exp', 'math.exp': 'exp', 'np.sin': 'sin', 'math.sin': 'sin', 'np.cos': 'cos', 'math.cos': 'cos',
    'np.log2': 'log2', 'math.log2': 'log2', 'np.log10': 'log10', 'math.log10': 'log10',
    'math.radians': 'radians', 'np.radians': 'radians', 'np.deg2rad': 'radians',
    'np.rint': 'round', 'np.round': 'round', 'np.around': 'round', 'np.round_': 'round',
    'np.amax': 'np.max', 'np.amin': 'np.min', 'np.double': 'np.float64', 'np.single': 'np.float32',
    'np.array': 'np.asarray', 'np.asanyarray': 'np.asarray',
    'multiprocessing.pool.Pool': 'multiprocessing.Pool', 'yaml.load': 'yaml.load',
    'math.trunc': 'int', 'math.pow': 'pow', 'np.power': 'pow', 'io.open': 'open',
    'math.sqrt': 'math.sqrt', 'np.logical_and': 'np.logical_and', 'np.nonzero': 'np.nonzero',
    'operator.truediv': 'operator.truediv',
    'os.path.realpath': 'os.path.realpath',
}


def canon(d):
    for a, b in _PREFIX:
        if d.startswith(a):
            d = b + d[len(a):]
            break
    if d == 'numpy':
        return 'np'
    return _SAME.get(d, d)


# ---------------------------------------------------------------- strings
_PCT = re.compile(r'%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([diouxXeEfFgGcrsa%])')


def percent_format(a, b):
    if a.op != 'const' or not isinstance(a.a[0], str):
        return mk('mod', a, b)
    s = a.a[0]
    parts, pos_, k = [], 0, 0
    for m in _PCT.finditer(s):
        parts.append(s[pos_:m.start()])
        pos_ = m.end()
        name, flags, ty = m.groups()
        if ty == '%':
            parts.append('%')
            continue
        if name:
            v = t.item(b, const(name))
        elif b.op == 'seq':
            v = t.item(b, num(k))
        else:
            v = b
        k += 1
        if ty in 'sra':
            parts.append((v, 'r' if ty == 'r' else '', flags))
        else:
            parts.append((v, '', flags + ('d' if ty in 'iu' else ty)))
    parts.append(s[pos_:])
    return t.fstr(parts)


def str_format(ev, s, args, kwargs, st):
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        m = re.match(r'^([A-Za-z_0-9]*)(.*)$', field)
        head, rest = m.group(1), m.group(2)
        if head == '':
            v = args[auto] if auto < len(args) else mk('undef')
            auto += 1
        elif head.isdigit():
            v = args[int(head)]
        else:
            v = kwargs.get(head, mk('undef'))
        for acc in re.findall(r'\.(\w+)|\[([^\]]+)\]', rest):
            if acc[0]:
                v = ev.getattr(v, acc[0], st)
            else:
                v = t.item(ev.deref(v, st), num(int(acc[1])) if acc[1].isdigit() else const(acc[1]))
        if spec and '{' in spec:
            sub = []
            for l2, f2, s2, c2 in string.Formatter().parse(spec):
                sub.append(l2)
                if f2 is not None:
                    if f2 == '':
                        x = args[auto]
                        auto += 1
                    else:
                        x = kwargs.get(f2, mk('undef'))
                    sub.append(t.show(ev.deref(x, st)))
            spec = ''.join(sub)
        parts.append((ev.deref(v, st), '' if conv in (None, 's') else conv, '' if spec == 's' else spec))
    return t.fstr(parts)


# ---------------------------------------------------------------- dtypes and arrays
_DT = {'float': 'np.float64', 'float64': 'np.float64', 'f8': 'np.float64', 'd': 'np.float64', 'float32': 'np.float32',
       'f4': 'np.float32', 'f': 'np.float32', 'int8': 'np.int8', 'i1': 'np.int8', 'b': 'np.int8', 'uint8': 'np.uint8',
       'u1': 'np.uint8', 'B': 'np.uint8', 'int': 'np.int64', 'int64': 'np.int64', 'uint64': 'np.uint64', 'u8': 'np.uint64',
       'int32': 'np.int32', 'i4': 'np.int32', 'np.float_': 'np.float64', 'np.int_': 'np.int64', 'np.ubyte': 'np.uint8',
       'np.byte': 'np.int8', 'np.double': 'np.float64', '<f4': 'np.float32', '<f8': 'np.float64', 'bool': 'np.bool_'}


def dtype(d):
    if d.op == 'const' and isinstance(d.a[0], str):
        return mk('glob', _DT.get(d.a[0], d.a[0]))
    if d.op == 'glob':
        return mk('glob', _DT.get(d.a[0], d.a[0]))
    if d.op == 'call' and d.a[0] == 'np.dtype' and d.a[1]:
        return dtype(d.a[1][0])
    if d.op == 'ite':
        return ite(d.a[0], dtype(d.a[1]), dtype(d.a[2]))
    return d


def cast(x, d):
    d = dtype(d)
    if dtype_of(x) is d:
        return x
    if x.op == 'arr':
        x = x.a[0]
    if x.op == 'call' and x.a[0] in ('np.fromfile', 'np.frombuffer', 'np.loadtxt'):
        if any(k == 'dtype' and v is d for k, v in x.a[2]):
            return x
    return mk('cast', x, d)


F32 = mk('glob', 'np.float32')


def dtype_of(x, depth=0):
    """element type of an array term when it is certain, else None"""
    if depth > 20:
        return None
    if x.op == 'cast':
        return x.a[1]
    if x.op in ('copy', 'maybeview', 'slice', 'reversed', 'contig'):
        return dtype_of(x.a[0], depth + 1)
    if x.op == 'ite':
        a, b = dtype_of(x.a[1], depth + 1), dtype_of(x.a[2], depth + 1)
        return a if a is b else None
    if x.op == 'call':
        n = x.a[0]
        if n.startswith('riptide.libcpp.') and n.rsplit('.', 1)[1] in ('downsample', 'ffa2', 'snr1', 'snr2', 'running_median', 'rollback',
                                                                 'fused_rollback_add', 'circular_prefix_sum'):
            return F32
        if n in ('np.reshape', 'np.transpose', 'np.ravel') and x.a[1]:
            return dtype_of(x.a[1][0], depth + 1)
        if n in ('np.fromfile', 'np.frombuffer'):
            for k, v in x.a[2]:
                if k == 'dtype' and v.op == 'glob':
                    return v
    return None


def as_array(ev, x, kw, st, name='np.asarray'):
    x = ev.deref(ev.iterval(x, st) if x.op == 'ref' else x, st)
    d = kw.get('dtype')
    if d is not None and d is not NONE:
        r = cast(x, ev.deref(d, st))
    elif x.op in ('seq', 'collect', 'flat'):
        r = mk('arr', x)
    else:
        r = x
    if getattr(ev, 'keep_copies', False):
        if name == 'np.array' and ev.deref(kw.get('copy', t.TRUE), st) is t.TRUE:
            return mk('copy', r)
        if name == 'np.array':
            return mk('maybeview', r)
        if name == 'np.asarray':
            return mk('maybeview', r)
    return r


def copy_of(ev, x):
    if getattr(ev, 'keep_copies', False):
        return mk('copy', x)
    return x


# parameter names of library functions (first parameter stays positional, the others become keywords)
SIG = {
    'np.mean': ('a', 'axis', 'dtype', 'out', 'keepdims'), 'np.var': ('a', 'axis', 'dtype', 'out', 'ddof'),
    'np.std': ('a', 'axis', 'dtype', 'out', 'ddof'), 'np.sum': ('a', 'axis', 'dtype', 'out'),
    'np.max': ('a', 'axis'), 'np.min': ('a', 'axis'), 'np.argmax': ('a', 'axis'), 'np.argmin': ('a', 'axis'),
    'np.argsort': ('a', 'axis', 'kind', 'order'), 'np.sort': ('a', 'axis', 'kind', 'order'),
    'np.median': ('a', 'axis'), 'np.percentile': ('a', 'q', 'axis'), 'np.quantile': ('a', 'q', 'axis'),
    'np.diff': ('a', 'n', 'axis'), 'np.concatenate': ('arrays', 'axis'), 'np.polyfit': ('x', 'y', 'deg'),
    'np.interp': ('x', 'xp', 'fp', 'left', 'right', 'period'), 'np.fromfile': ('file', 'dtype', 'count', 'sep', 'offset'),
    'np.frombuffer': ('buffer', 'dtype', 'count', 'offset'), 'np.random.normal': ('loc', 'scale', 'size'),
    'np.cumsum': ('a', 'axis', 'dtype'), 'np.take': ('a', 'indices', 'axis'), 'np.clip': ('a', 'a_min', 'a_max'),
    'np.nextafter': ('x1', 'x2'), 'np.polyval': ('p', 'x'), 'np.poly1d': ('c_or_r', 'r', 'variable'),
    'np.load': ('file', 'mmap_mode', 'allow_pickle'), 'np.save': ('file', 'arr'),
    'open': ('file', 'mode', 'buffering', 'encoding'), 'multiprocessing.Pool': ('processes', 'initializer', 'initargs'),
    'json.dumps': ('obj',), 'json.loads': ('s',), 'json.dump': ('obj', 'fp'), 'json.load': ('fp',),
    'pandas.DataFrame': ('data', 'index', 'columns', 'dtype'), 'pandas.DataFrame.from_dict': ('data', 'orient', 'dtype', 'columns'),
    'np.atleast_2d': ('a',), 'np.transpose': ('a', 'axes'), 'np.repeat': ('a', 'repeats', 'axis'),
    'np.ravel': ('a',), 'np.squeeze': ('a', 'axis'), 'np.zeros': ('shape', 'dtype'), 'np.ones': ('shape', 'dtype'),
    'np.empty': ('shape', 'dtype'), 'np.full': ('shape', 'fill_value', 'dtype'),
    'np.searchsorted': ('a', 'v', 'side', 'sorter'), 'np.prod': ('a', 'axis'), 'np.ptp': ('a', 'axis'),
    'np.nanmedian': ('a', 'axis'), 'np.nanmean': ('a', 'axis'), 'np.nanmax': ('a', 'axis'), 'np.isfinite': ('x',),
    'struct.unpack': ('format', 'buffer'), 'os.path.getsize': ('filename',),
    'fractions.Fraction': ('numerator', 'denominator'), 'logging.getLogger': ('name',),
    'yaml.safe_load': ('stream',), 'threadpoolctl.threadpool_limits': ('limits', 'user_api'),
}
DEFAULTS = {
    'np.fromfile': {'count': num(-1), 'sep': const(''), 'offset': ZERO, 'dtype': mk('glob', 'np.float64')},
    'np.diff': {'n': ONE, 'axis': num(-1)}, 'np.concatenate': {'axis': ZERO},
    'np.argsort': {'axis': num(-1), 'kind': NONE, 'order': NONE}, 'np.sort': {'axis': num(-1), 'kind': NONE},
    'np.random.normal': {'loc': ZERO, 'scale': ONE, 'size': NONE}, 'open': {'mode': const('r')},
    'np.var': {'ddof': ZERO, 'axis': NONE}, 'np.std': {'ddof': ZERO, 'axis': NONE}, 'np.mean': {'axis': NONE},
    'np.sum': {'axis': NONE}, 'np.max': {'axis': NONE}, 'np.min': {'axis': NONE}, 'np.median': {'axis': NONE},
    'np.argmax': {'axis': NONE}, 'np.argmin': {'axis': NONE},
    'np.percentile': {'axis': NONE}, 'np.polyfit': {}, 'np.searchsorted': {'side': const('left')},
    'fractions.Fraction': {'denominator': ONE},
}

# functions whose mutual differences are meaningful: a difference that only involves these is a decided difference
KNOWN = set(SIG) | {
    'np.unique', 'abs', 'log', 'exp', 'sin', 'cos', 'log2', 'log10', 'np.flatnonzero', 'np.reshape', 'np.asarray', 'np.where',
    'np.ascontiguousarray', 'sumof', 'maxof', 'minof', 'np.hstack', 'np.sign', 'np.arange', 'anyof', 'allof', 'float',
    'os.path.join', 'os.path.realpath', 'os.path.basename', 'os.path.dirname', 'os.path.splitext', 'os.path.abspath', 'base64.b64encode', 'base64.b64decode', 'str', 'type',
    'round', 'unordered', 'importlib.import_module', 'getattr', 'hasattr', 'os.getcwd', 'id', 'hash', 'warnings.warn', 'time.time',
}

METHOD_FN = {
    'mean': 'np.mean', 'var': 'np.var', 'std': 'np.std', 'sum': 'np.sum', 'max': 'np.max', 'min': 'np.min',
    'argmax': 'np.argmax', 'argmin': 'np.argmin', 'argsort': 'np.argsort', 'cumsum': 'np.cumsum', 'ravel': 'np.ravel',
    'flatten': 'np.ravel', 'squeeze': 'np.squeeze', 'transpose': 'np.transpose', 'clip': 'np.clip', 'take': 'np.take',
    'round': 'round', 'prod': 'np.prod', 'ptp': 'np.ptp', 'nonzero': 'np.nonzero', 'repeat': 'np.repeat',
    'searchsorted': 'np.searchsorted', 'any': 'np.any', 'all': 'np.all', 'dot': 'np.dot',
}

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'add',
            'discard', 'popitem', 'fill', 'resize', 'itemset', 'put', 'partition', 'setflags', 'byteswap'}

FILE_METHODS = {'read', 'seek', 'tell', 'readline', 'readlines', 'write', 'close', 'flush'}


# ---------------------------------------------------------------- attributes
def attribute(ev, base, name):
    if name == 'size':
        return t.length(base)
    if name == 'T':
        return mk('call', 'np.transpose', (base,), ())
    if name in ('coef', 'coeffs', 'c') and base.op == 'call' and base.a[0] == 'np.poly1d':
        name = 'coefficients'
    if name == 'coefficients' and base.op == 'call' and base.a[0] == 'np.poly1d' and len(base.a[1]) == 1 and not base.a[2]:
        return base.a[1][0]
    if base.op == 'mcall' and base.a[0] == 'schema.Optional' and name in ('schema', 'key'):
        return base.a[1][0]
    if base.op == 'call' and base.a[0] == 'schema.Optional' and name == 'schema':
        return base.a[1][0]
    if base.op == 'item' and base.a[0].op == 'keys' and name == 'schema' and False:
        return base
    if name == 'real':
        return base
    return t.attr(base, name)


# ---------------------------------------------------------------- helpers
def lam(ev, f, st, node, n=1):
    """lambda term of a callable value"""
    if f is None or f is NONE:
        return NONE
    idxs = [t.fresh_idx() for _ in range(n)]
    events = ev.events
    ev.events = []
    s2 = st.copy()
    s2.pc = TRUE
    try:
        body = ev.deref(ev.call_value(f, [t.larg(i) for i in idxs], {}, s2, node), s2)
    finally:
        ev.events = events
    for i in reversed(idxs):
        body = t.bind('lambda', i, (num(1),), (body,))
    return body


def neg_lam(l):
    i, outer, inner = t.open_node(l)
    b = inner[0]
    if b.op in ('seq', 'const', 'fstr', 'ite') and b.op != 'ite':
        return None
    return t.bind('lambda', i, outer, (t.neg(b),))


def identity_lam():
    i = t.fresh_idx()
    return t.bind('lambda', i, (num(1),), (t.larg(i),))


def sort_term(ev, S, key, rev, st, node):
    S = ev.deref(S, st)
    k = lam(ev, key, st, node)
    if k is NONE:
        k = identity_lam()
    r = ev.deref(rev, st) if rev is not None else FALSE
    if r is ZERO:
        r = FALSE
    if r is TRUE or r is ONE:
        nk = neg_lam(k)
        if nk is not None:
            k, r = nk, FALSE
        else:
            r = TRUE
    es = t.seq_elems(S)
    if es is not None and len(es) == 2 and r is FALSE:
        c = le_key(es[0], es[1], k)
        if c is not None:
            return ite(c, S, t.seq([es[1], es[0]]))
    return t.sorted_(S, k, r)


def le_key(a, b, k):
    ka, kb = t.open_binder(k, 2, a), t.open_binder(k, 2, b)
    if ka.op in ('seq', 'const', 'fstr'):
        return None
    return t.le(ka, kb)


def minby(S, k):
    es = t.seq_elems(S)
    if es is not None and len(es) == 1:
        return es[0]
    if es is not None and len(es) == 2:
        c = le_key(es[0], es[1], k)
        if c is not None:
            return ite(c, es[0], es[1])
    if S.op == 'sorted' and False:
        return S
    return mk('minby', S, k)


def by_extremum(ev, S, key, st, node, maximum):
    k = lam(ev, key, st, node)
    if maximum:
        nk = neg_lam(k)
        if nk is None:
            return mk('maxby', S, k)
        k = nk
    return minby(S, k)


def extremum(S, maximum):
    es = t.seq_elems(S)
    if es is not None and es:
        return t.tmax(*es) if maximum else t.tmin(*es)
    if S.op == 'arr':
        return extremum(S.a[0], maximum)
    if S.op in ('sorted',) and S.a[2] is FALSE and S.a[1] is identity_lam():
        S = S.a[0]
    if S.op == 'seq':
        parts = []
        for k, x in S.a[0]:
            parts.append(x if k == 'e' else extremum(x, maximum))
        return t.tmax(*parts) if maximum else t.tmin(*parts)
    if S.op == 'flat':
        return mk('maxof' if maximum else 'minof', S)
    return mk('maxof' if maximum else 'minof', S)


def sum_of(S):
    es = t.seq_elems(S)
    if es is not None:
        out = ZERO
        for e in es:
            out = t.add(out, e)
        return out
    if S.op == 'arr':
        return sum_of(S.a[0])
    if S.op == 'collect':
        i, outer, inner = t.open_node(S)
        return t.tsum(outer[0], i, ite(inner[1], inner[0], ZERO))
    if S.op == 'seq':
        out = ZERO
        for k, x in S.a[0]:
            out = t.add(out, x if k == 'e' else sum_of(x))
        return out
    return mk('sumof', S)


def any_of(S, every=False):
    es = t.seq_elems(S)
    if es is not None:
        return land(*[t.truth(e) for e in es]) if every else lor(*[t.truth(e) for e in es])
    if S.op == 'arr':
        return any_of(S.a[0], every)
    if S.op == 'collect':
        i, outer, inner = t.open_node(S)
        b = t.truth(inner[0])
        if every:
            return lnot(t.tany(outer[0], i, land(inner[1], lnot(b))))
        return t.tany(outer[0], i, land(inner[1], b))
    if every:
        return lnot(mk('truth', mk('anyof', lnot(t.truth(S)) if t.is_bool(S) else mk('notof', S))))
    return mk('truth', mk('anyof', S))


def pairs_dict(S):
    """dictionary built from an iterable of pairs"""
    from .eval import dict_of_pairs
    es = t.seq_elems(S)
    if es is not None:
        d = t.dict_([])
        for e in es:
            d = t.dict_set(d, t.item(e, ZERO), t.item(e, ONE))
        return d
    if S.op == 'ditems':
        return S.a[0]
    if S.op == 'zip' and len(S.a[0]) == 2:
        i = t.fresh_idx()
        return dict_of_pairs(t.collect(t.length(S), i, t.item(S, i)))
    return dict_of_pairs(S)


def dict_items(d):
    if d.op == 'dict' and all(t.is_const(k) or k.op in ('glob', 'call') for k, _ in d.a[0]):
        return t.seq([t.seq([k, v]) for k, v in d.a[0]])
    return mk('ditems', d)


def dict_values(d):
    if d.op == 'dict' and all(t.is_const(k) or k.op in ('glob', 'call') for k, _ in d.a[0]):
        return t.seq([v for k, v in d.a[0]])
    i = t.fresh_idx()
    k = t.item(mk('keys', d), i)
    return t.collect(t.length(mk('keys', d)), i, t.item(d, k))


def copy_args(ev, q, args, kwargs, st):
    """normalise positional / keyword arguments of library function q"""
    sig = SIG.get(q)
    a = [ev.deref(x, st) for x in args]
    kw = {k: ev.deref(v, st) for k, v in kwargs.items()}
    if sig and '**' not in kw:
        b = dict(zip(sig, a))
        rest = a[len(sig):]
        b.update(kw)
        for k, v in DEFAULTS.get(q, {}).items():
            if b.get(k) is v:
                del b[k]
        if 'dtype' in b:
            b['dtype'] = dtype(b['dtype'])
            if DEFAULTS.get(q, {}).get('dtype') is b['dtype']:
                del b['dtype']
        first = sig[0]
        a = ([b.pop(first)] if first in b else []) + rest
        kw = b
    return tuple(a), tuple(sorted(kw.items()))


def extcall(ev, q, args, kwargs, st, node, event=True):
    a, kw = copy_args(ev, q, args, kwargs, st)
    k2 = dict(kw)
    if q in ('np.percentile', 'np.quantile', 'np.median') and len(a) == 1 and set(k2) <= {'q', 'axis'}:
        c = num(50) if q == 'np.median' else k2.get('q')
        if c is not None:
            k = num(100) if q == 'np.quantile' else ONE
            if c.op == 'arr':
                c = c.a[0]
            es = t.seq_elems(c)
            if es is not None:
                return t.seq([percentile(a[0], t.mul(k, e), k2) for e in es])
            return percentile(a[0], t.mul(k, c), k2)
    if 'axis' in k2 and a and q.startswith('np.'):
        kw = tuple(sorted(dict(kw, **norm_axis(a[0], k2)).items()))
    v = mk('call', q, a, kw)
    if event:
        ev.event('call', st, node, name=q, args=tuple(args), kwargs=dict(kwargs), value=v)
    return v


PURE = {'abs', 'log', 'exp', 'sin', 'cos'} | {k for k in SIG if k.startswith('np.') and k not in
                                              ('np.fromfile', 'np.load', 'np.save', 'np.random.normal')}


# ---------------------------------------------------------------- calls of external functions
def external(ev, q, args, kwargs, st, node, ctx):
    f = _EXT.get(q)
    if f is not None:
        r = f(ev, args, kwargs, st, node, ctx)
        if r is not None:
            return r
    if q in _DT and q.startswith('np.') or q in ('np.float32', 'np.float64', 'np.int64', 'np.int32', 'np.uint8', 'np.uint64'):
        if len(args) == 1 and not kwargs:
            return cast(ev.deref(args[0], st), mk('glob', q))
    if '.' in q:
        # method of an external class called through the class, e.g. str.upper(x), list.append
        head, tail = q.rsplit('.', 1)
        if head in ('str', 'list', 'dict') and args:
            return method(ev, args[0], tail, list(args[1:]), kwargs, st, node, ctx)
        if head == 'np.ndarray' and args:
            return method(ev, args[0], tail, list(args[1:]), kwargs, st, node, ctx)
    if q.startswith('operator.'):
        r = _operator(ev, q[9:], args, kwargs, st, node)
        if r is not None:
            return r
    if q.endswith('Error') or q in ('Exception', 'StopIteration', 'Warning'):
        return mk('exc', q, tuple(ev.deref(a, st) for a in args))
    return extcall(ev, q, args, kwargs, st, node, event=q not in PURE)


_EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            _EXT[n] = f
        return f
    return deco


def _d(ev, x, st):
    return ev.deref(x, st)


@ext('len')
def _len(ev, args, kw, st, node, ctx):
    return t.length(ev.deref(ev.iterval(args[0], st), st))


@ext('abs')
def _abs(ev, args, kw, st, node, ctx):
    if len(args) == 1:
        return t.absval(_d(ev, args[0], st))


@ext('math.sqrt')
def _sqrt(ev, args, kw, st, node, ctx):
    if len(args) == 1:
        return t.sqrt(_d(ev, args[0], st))


@ext('pow')
def _pow(ev, args, kw, st, node, ctx):
    if len(args) == 2:
        return t.power(_d(ev, args[0], st), _d(ev, args[1], st))


@ext('math.floor')
def _floor(ev, args, kw, st, node, ctx):
    return t.floor(_d(ev, args[0], st))


@ext('math.ceil')
def _ceil(ev, args, kw, st, node, ctx):
    return t.ceil(_d(ev, args[0], st))


@ext('radians')
def _radians(ev, args, kw, st, node, ctx):
    return t.div(t.mul(_d(ev, args[0], st), PI), num(180))


@ext('int')
def _int(ev, args, kw, st, node, ctx):
    if not args:
        return ZERO
    x = _d(ev, args[0], st)
    if x.op == 'const' and isinstance(x.a[0], str):
        try:
            return num(int(x.a[0]))
        except ValueError:
            return None
    if len(args) > 1:
        return None
    if t.is_bool(x):
        return ite(x, ONE, ZERO)
    if ev.is_text(x):
        return mk('call', 'int', (x,), ())
    return t.trunc(x)


@ext('float', 'np.float64')
def _float(ev, args, kw, st, node, ctx):
    if not args:
        return ZERO
    x = _d(ev, args[0], st)
    if x.op == 'const' and isinstance(x.a[0], str):
        return const(float(x.a[0])) if x.a[0] not in ('inf', '-inf', 'nan') else mk('const', x.a[0])
    if ev.is_text(x):
        return mk('call', 'float', (x,), ())
    return x


@ext('bool')
def _bool(ev, args, kw, st, node, ctx):
    return ev.truth(args[0], st) if args else FALSE


@ext('str')
def _str(ev, args, kw, st, node, ctx):
    if not args:
        return const('')
    x = _d(ev, args[0], st)
    if ev.is_text(x):
        return x
    return t.fstr([(x, '', '')])


@ext('repr')
def _repr(ev, args, kw, st, node, ctx):
    return t.fstr([(_d(ev, args[0], st), 'r', '')])


@ext('format')
def _format(ev, args, kw, st, node, ctx):
    sp = _d(ev, args[1], st) if len(args) > 1 else const('')
    if sp.op == 'const':
        return t.fstr([(_d(ev, args[0], st), '', sp.a[0])])


@ext('round')
def _round(ev, args, kw, st, node, ctx):
    if len(args) == 1 and not kw:
        return t.round_(_d(ev, args[0], st))


@ext('divmod')
def _divmod(ev, args, kw, st, node, ctx):
    a, b = _d(ev, args[0], st), _d(ev, args[1], st)
    return t.seq([t.floordiv(a, b), t.mod(a, b)])


def _minmax(maximum):
    def f(ev, args, kw, st, node, ctx):
        if 'default' in kw:
            return None
        key = kw.get('key')
        if len(args) == 1:
            S = _d(ev, ev.iterval(args[0], st), st)
        else:
            S = t.seq([_d(ev, a, st) for a in args])
        if key is not None and key is not NONE:
            return by_extremum(ev, S, key, st, node, maximum)
        return extremum(S, maximum)
    return f


_EXT['max'] = _minmax(True)
_EXT['min'] = _minmax(False)


def _npextremum(maximum, name):
    def f(ev, args, kw, st, node, ctx):
        a, k = copy_args(ev, name, args, kw, st)
        if not k:
            return extremum(_d(ev, ev.iterval(args[0], st), st), maximum)
        return mk('call', name, a, k)
    return f


_EXT['np.max'] = _npextremum(True, 'np.max')
_EXT['np.min'] = _npextremum(False, 'np.min')


@ext('np.maximum')
def _maximum(ev, args, kw, st, node, ctx):
    if len(args) == 2:
        return t.tmax(_d(ev, args[0], st), _d(ev, args[1], st))


@ext('np.minimum')
def _minimum(ev, args, kw, st, node, ctx):
    if len(args) == 2:
        return t.tmin(_d(ev, args[0], st), _d(ev, args[1], st))


@ext('sum')
def _sum(ev, args, kw, st, node, ctx):
    S = _d(ev, ev.iterval(args[0], st), st)
    start = args[1] if len(args) > 1 else kw.get('start')
    if start is not None:
        s0 = _d(ev, ev.iterval(start, st) if start.op == 'ref' else start, st)
        if s0.op == 'seq':        # sum(list of lists, [])
            return ev.new_ref('list', t.concat(s0, flatten(S)))
        return t.add(s0, sum_of(S))
    return sum_of(S)


def flatten(S):
    """concatenation of a sequence of sequences"""
    from .eval import mkflat
    es = t.seq_elems(S)
    if es is not None:
        out = EMPTY
        for e in es:
            out = t.concat(out, e)
        return out
    if S.op == 'collect':
        i, outer, inner = t.open_node(S)
        return mkflat(outer[0], i, inner[0], inner[1])
    i = t.fresh_idx()
    return mkflat(t.length(S), i, t.item(S, i))


@ext('np.sum')
def _npsum(ev, args, kw, st, node, ctx):
    a, k = copy_args(ev, 'np.sum', args, kw, st)
    if not k:
        return sum_of(a[0])
    return mk('call', 'np.sum', a, k)


@ext('np.mean')
def _npmean(ev, args, kw, st, node, ctx):
    a, k = copy_args(ev, 'np.mean', args, kw, st)
    d = dict(k)
    if set(d) == {'axis'} and len(a) == 1 and a[0].op == 'call' and a[0].a[0] == 'np.reshape' and t.is_num(d['axis']):
        # mean over an axis of known length: the sum divided by it
        es = t.seq_elems(a[0].a[1][1])
        if es is not None and -len(es) <= d['axis'].a[0] < len(es):
            n = es[int(d['axis'].a[0])]
            if n is not num(-1):
                return t.div(mk('call', 'np.sum', a, tuple(norm_axis(a[0], d).items())), n)
    return None


@ext('any', 'np.any')
def _any(ev, args, kw, st, node, ctx):
    if kw or len(args) != 1:
        return None
    return any_of(_d(ev, ev.iterval(args[0], st), st))


@ext('all', 'np.all')
def _all(ev, args, kw, st, node, ctx):
    if kw or len(args) != 1:
        return None
    return any_of(_d(ev, ev.iterval(args[0], st), st), every=True)


@ext('list')
def _list(ev, args, kw, st, node, ctx):
    if not args:
        return ev.new_ref('list', EMPTY)
    return ev.new_ref('list', ev.iterval(args[0], st))


@ext('tuple', 'iter')
def _tuple(ev, args, kw, st, node, ctx):
    if not args:
        return EMPTY
    return ev.iterval(args[0], st)


@ext('set', 'frozenset')
def _set(ev, args, kw, st, node, ctx):
    if not args:
        return mk('set', ())
    S = _d(ev, ev.iterval(args[0], st), st)
    es = t.seq_elems(S)
    if es is not None:
        return mk('set', tuple(sorted(set(es), key=lambda x: x.dg)))
    return mk('setof', S)


@ext('dict', 'collections.OrderedDict')
def _dict(ev, args, kw, st, node, ctx):
    d = t.dict_([])
    if args:
        x = args[0]
        if ev._isdict(x) or x.op == 'ref' and ev.refs[x]['kind'] == 'inst':
            d = ev._as_dict(x, st)
            if d.op != 'dict':
                d = t.dict_update(t.dict_([]), d)
        else:
            S = _d(ev, x, st)
            if S.op in ('collect', 'zip', 'ditems') or t.seq_elems(S) is not None:
                d = pairs_dict(S)
            else:
                d = t.dict_update(t.dict_([]), S)
    for k, v in kw.items():
        if k == '**':
            d = t.dict_update(d, ev.deref(v, st))
        else:
            d = t.dict_set(d, const(k), v)
    return ev.new_ref('dict', d)


@ext('collections.defaultdict')
def _defaultdict(ev, args, kw, st, node, ctx):
    r = ev.new_ref('dict', t.dict_([]))
    ev.refs[r]['factory'] = args[0].a[0] if args and args[0].op == 'glob' else 'other'
    return r


def nonneg(n):
    return ZERO if t.is_num(n) and n.a[0] < 0 else n


@ext('range', 'np.arange')
def _range(ev, args, kw, st, node, ctx):
    a = [_d(ev, x, st) for x in args]
    if len(a) == 1:
        return mk('range', ZERO, nonneg(a[0]), ONE)
    if len(a) == 2:
        return mk('range', a[0], nonneg(t.sub(a[1], a[0])), ONE)
    if len(a) == 3:
        if t.is_num(a[2]) and all(t.is_int(x) for x in a):
            return mk('range', a[0], t.ceil(t.div(t.sub(a[1], a[0]), a[2])), a[2])
        return mk('range', a[0], t.ceil(t.div(t.sub(a[1], a[0]), a[2])), a[2])


@ext('enumerate')
def _enumerate(ev, args, kw, st, node, ctx):
    start = args[1] if len(args) > 1 else kw.get('start', ZERO)
    return mk('enum', _d(ev, ev.iterval(args[0], st), st), _d(ev, start, st))


@ext('zip')
def _zip(ev, args, kw, st, node, ctx):
    S = [_d(ev, ev.iterval(a, st), st) for a in args]
    if all(t.seq_elems(s) is not None for s in S):
        return t.seq([t.seq(list(x)) for x in zip(*[t.seq_elems(s) for s in S])])
    return mk('zip', tuple(S))


@ext('reversed', 'np.flip')
def _reversed(ev, args, kw, st, node, ctx):
    S = _d(ev, ev.iterval(args[0], st), st)
    return reverse(S)


def reverse(S):
    es = t.seq_elems(S)
    if es is not None:
        return t.seq(list(reversed(es)))
    if S.op == 'reversed':
        return S.a[0]
    return mk('reversed', S)


@ext('sorted')
def _sorted(ev, args, kw, st, node, ctx):
    return ev.new_ref('list', sort_term(ev, ev.iterval(args[0], st), kw.get('key'), kw.get('reverse'), st, node))


@ext('np.sort')
def _npsort(ev, args, kw, st, node, ctx):
    if len(args) == 1 and not kw:
        from .eval import unperm
        return t.sorted_(unperm(_d(ev, ev.iterval(args[0], st), st)), identity_lam(), FALSE)


def over(ev, S, fn, st, node, ctx, cond_fn=None):
    """[fn(x) for x in S] with the effects and exceptions of fn recorded under the loop"""
    from .eval import Ctx, mkcollect
    es = t.seq_elems(S)
    if es is not None and len(es) <= 24:
        out = EMPTY
        for e in es:
            c = cond_fn(e, st, ctx) if cond_fn else TRUE
            v = fn(e, st, ctx)
            one = t.seq([v])
            out = t.concat(out, one) if c is TRUE else (out if c is FALSE else t.concat(out, ite(c, one, EMPTY)))
        return out
    i = t.fresh_idx()
    n = t.length(S)
    s2 = st.copy()
    s2.pc = TRUE
    lctx = Ctx('loop', ctx)
    ev.loops.append((i, n))
    ev.guards.append(st.pc)
    save = getattr(ev, 'cur_ctx', None)
    ev.cur_ctx = lctx
    try:
        x = t.item(S, i)
        c = cond_fn(x, s2, lctx) if cond_fn else TRUE
        v = fn(x, s2, lctx)
    finally:
        ev.loops.pop()
        ev.guards.pop()
        ev.cur_ctx = save
    for rc, exc in lctx.raises:
        r = t.tany(n, i, rc)
        ctx.raises.append((land(st.pc, r), exc))
        st.pc = land(st.pc, lnot(r))
    return mkcollect(n, i, v, c)


@ext('map')
def _map(ev, args, kw, st, node, ctx):
    f = args[0]
    if len(args) == 2:
        S = _d(ev, ev.iterval(args[1], st), st)
        return over(ev, S, lambda x, s, c: _d(ev, ev.call_value(f, [x], {}, s, node, c), s), st, node, ctx)
    Z = mk('zip', tuple(_d(ev, ev.iterval(a, st), st) for a in args[1:]))
    k = len(args) - 1
    return over(ev, Z, lambda x, s, c: _d(ev, ev.call_value(f, [t.item(x, num(j)) for j in range(k)], {}, s, node, c), s), st, node, ctx)


@ext('filter')
def _filter(ev, args, kw, st, node, ctx):
    f = args[0]
    S = _d(ev, ev.iterval(args[1], st), st)
    if f is NONE:
        return over(ev, S, lambda x, s, c: x, st, node, ctx, cond_fn=lambda x, s, c: t.truth(x))
    return over(ev, S, lambda x, s, c: x, st, node, ctx,
                cond_fn=lambda x, s, c: ev.truth(ev.call_value(f, [x], {}, s, node, c), s))


@ext('isinstance')
def _isinstance(ev, args, kw, st, node, ctx):
    x = _d(ev, args[0], st)
    T = _d(ev, args[1], st)
    es = t.seq_elems(T)
    ts = es if es is not None else [T]
    if x is NONE:
        return TRUE if any(y.op == 'call' for y in ts) else FALSE
    return lor(*[isinst(ev, x, y) for y in ts])


def isinst(ev, x, T):
    if T.op == 'glob':
        n = T.a[0]
        if x.op == 'const' and isinstance(x.a[0], str):
            return TRUE if n == 'str' else FALSE
        if x.op == 'glob' and n in ('str', 'int', 'float', 'list', 'dict', 'tuple', 'bool', 'bytes'):
            return FALSE
        if x.op in ('seq', 'dict') and n in ('str', 'int', 'float', 'bytes'):
            return FALSE
        c = ev.typeof(x)
        if c and any(q == n for q, m, nd in ev.mro(c)) if c and not c.startswith('list:') else False:
            return TRUE
        if n in _BUILTIN and c and not c.startswith('list:'):
            if c in _BUILTIN:
                return TRUE if c == n or (c, n) == ('bool', 'int') else FALSE
            if x.op in ('ref', 'rec', 'param') and not any(q == n for q, m, nd in ev.mro(c)):
                return FALSE
    return mk('isinst', x, T)


_BUILTIN = ('str', 'int', 'float', 'list', 'dict', 'tuple', 'bool', 'bytes')


@ext('type')
def _type(ev, args, kw, st, node, ctx):
    if len(args) == 1:
        c = ev.typeof(args[0])
        if c and not c.startswith('list:') and args[0].op in ('ref', 'rec', 'param'):
            return mk('glob', c)
        return mk('call', 'type', (_d(ev, args[0], st),), ())


@ext('getattr')
def _getattr(ev, args, kw, st, node, ctx):
    k = _d(ev, args[1], st)
    if k.op == 'const' and isinstance(k.a[0], str) and len(args) == 2:
        return ev.getattr(args[0], k.a[0], st, node)
    return mk('call', 'getattr', tuple(_d(ev, a, st) for a in args), ())


@ext('setattr')
def _setattr(ev, args, kw, st, node, ctx):
    k = _d(ev, args[1], st)
    if k.op == 'const':
        ev.event('setattr', st, node, base=args[0], name=k.a[0], value=_d(ev, args[2], st))
        st.heap[(args[0], k.a[0])] = args[2]
        return NONE


@ext('hasattr')
def _hasattr(ev, args, kw, st, node, ctx):
    return mk('in', _d(ev, args[1], st), mk('attrs', _d(ev, args[0], st)))


@ext('print')
def _print(ev, args, kw, st, node, ctx):
    ev.event('call', st, node, name='print', args=tuple(args), kwargs=dict(kw), value=NONE)
    return NONE


@ext('next')
def _next(ev, args, kw, st, node, ctx):
    S = _d(ev, ev.iterval(args[0], st), st)
    if S.op == 'collect':
        i, outer, inner = t.open_node(S)
        n = outer[0]
        hit = mk('firsthit', n, t.bind('lambda', i, (num(1),), (inner[1],)))
        t.INT_ATOMS.add(hit)
        v = t.subst(inner[0], {i: hit})
        if len(args) > 1:
            return ite(t.tany(n, i, inner[1]), v, _d(ev, args[1], st))
        ctx.raises.append((land(st.pc, lnot(t.tany(n, i, inner[1]))), 'StopIteration'))
        return v
    if len(args) == 1:
        return t.item(S, ZERO)
    return ite(t.truth(S), t.item(S, ZERO), _d(ev, args[1], st))


# itertools / functools / operator
@ext('itertools.combinations')
def _comb(ev, args, kw, st, node, ctx):
    r = args[1] if len(args) > 1 else kw.get('r')
    if r is num(2):
        return mk('comb2', _d(ev, ev.iterval(args[0], st), st))


@ext('itertools.chain')
def _chain(ev, args, kw, st, node, ctx):
    out = EMPTY
    for a in args:
        if a.op == 'star':
            out = t.concat(out, flatten(a.a[0]))
        else:
            out = t.concat(out, _d(ev, ev.iterval(a, st), st))
    return out


@ext('itertools.chain.from_iterable')
def _chainfi(ev, args, kw, st, node, ctx):
    return flatten(_d(ev, ev.iterval(args[0], st), st))


@ext('functools.partial')
def _partial(ev, args, kw, st, node, ctx):
    from .eval import Partial
    return ev.fun(Partial(args[0], list(args[1:]), dict(kw)))


@ext('functools.reduce')
def _reduce(ev, args, kw, st, node, ctx):
    S = _d(ev, ev.iterval(args[1], st), st)
    es = t.seq_elems(S)
    if es is not None and len(args) > 2:
        acc = args[2]
        for e in es:
            acc = ev.call_value(args[0], [acc, e], {}, st, node, ctx)
        return acc


@ext('operator.attrgetter')
def _attrgetter(ev, args, kw, st, node, ctx):
    from .eval import Builtin
    if len(args) == 1 and args[0].op == 'const':
        path = args[0].a[0].split('.')

        def f(ev, a, k, s, n):
            v = a[0]
            for p in path:
                v = ev.getattr(v, p, s, n)
            return v
        return ev.fun(Builtin(f))


@ext('operator.itemgetter')
def _itemgetter(ev, args, kw, st, node, ctx):
    from .eval import Builtin
    if len(args) == 1:
        key = _d(ev, args[0], st)
        return ev.fun(Builtin(lambda ev, a, k, s, n: ev.subscript(a[0], key, s, n)))


def _operator(ev, name, args, kw, st, node):
    ops = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'floordiv': 'FloorDiv', 'mod': 'Mod', 'pow': 'Pow'}
    if name in ops and len(args) == 2:
        return ev.binop(ops[name], args[0], args[1], st, node)
    cmps = {'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq'}
    if name in cmps and len(args) == 2:
        return ev.compare(cmps[name], args[0], args[1], st)
    if name == 'not_':
        return lnot(ev.truth(args[0], st))
    if name == 'neg':
        return t.neg(_d(ev, args[0], st))
    return None


# numpy
@ext('np.asarray')
def _asarray(ev, args, kw, st, node, ctx):
    k = dict(kw)
    if len(args) > 1:
        k['dtype'] = args[1]
    nm = 'np.array' if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'array' else 'np.asarray'
    return as_array(ev, args[0], k, st, nm)


@ext('np.ascontiguousarray', 'np.require')
def _ascont(ev, args, kw, st, node, ctx):
    if getattr(ev, 'keep_contig', False):
        return mk('call', 'np.ascontiguousarray', (_d(ev, args[0], st),), ())
    k = dict(kw)
    if len(args) > 1:
        k['dtype'] = args[1]
    return as_array(ev, args[0], k, st, 'np.asarray')


@ext('np.copy', 'copy.copy', 'copy.deepcopy')
def _npcopy(ev, args, kw, st, node, ctx):
    x = args[0]
    deep = isinstance(node, ast.Call) and ast.dump(node.func).find('deepcopy') >= 0
    return clone(ev, x, st, deep)


def clone(ev, x, st, deep, memo=None):
    memo = {} if memo is None else memo
    if x in memo:
        return memo[x]
    if x.op == 'ref':
        info = ev.refs[x]
        c = ev.content(x, st)
        r = ev.new_ref(info['kind'], c, cls=info['cls'])
        memo[x] = r
        if deep and c is not None and ev.has_ref(c):
            c = t.map_children(c, lambda y: clone(ev, y, st, deep, memo)) if c.op != 'ref' else clone(ev, c, st, deep, memo)
            ev.set_content(r, c, st)
        elif info['kind'] == 'inst' and c is not None:
            ev.set_content(r, c, st)
        for (loc, f), v in list(st.heap.items()):
            if loc is x and f != '$c':
                st.heap[(r, f)] = clone(ev, v, st, deep, memo) if deep else v
        return r
    d = _d(ev, x, st)
    return copy_of(ev, d)


@ext('np.where')
def _where(ev, args, kw, st, node, ctx):
    if len(args) == 1:
        return t.seq([mk('call', 'np.flatnonzero', (_d(ev, args[0], st),), ())])


@ext('np.nonzero')
def _nonzero(ev, args, kw, st, node, ctx):
    return t.seq([mk('call', 'np.flatnonzero', (_d(ev, args[0], st),), ())])


@ext('np.argwhere')
def _argwhere(ev, args, kw, st, node, ctx):
    return mk('call', 'np.argwhere', (_d(ev, args[0], st),), ())


@ext('np.flatnonzero')
def _flatnonzero(ev, args, kw, st, node, ctx):
    return mk('call', 'np.flatnonzero', (_d(ev, args[0], st),), ())


@ext('np.logical_and', 'np.bitwise_and')
def _land(ev, args, kw, st, node, ctx):
    return land(*[t.truth(_d(ev, a, st)) for a in args])


@ext('np.logical_or', 'np.bitwise_or')
def _lor(ev, args, kw, st, node, ctx):
    return lor(*[t.truth(_d(ev, a, st)) for a in args])


@ext('np.logical_not', 'np.invert')
def _lnot(ev, args, kw, st, node, ctx):
    return lnot(t.truth(_d(ev, args[0], st)))


@ext('np.reshape')
def _reshape(ev, args, kw, st, node, ctx):
    x = _d(ev, args[0], st)
    sh = [_d(ev, ev.iterval(a, st) if a.op == 'ref' else a, st) for a in args[1:]]
    if len(sh) == 1 and (sh[0].op in ('seq', 'attr', 'slice', 'item') or ev.typeof(sh[0]) == 'tuple'):
        shape = sh[0] if sh[0].op != 'item' else t.seq(sh)
    else:
        shape = t.seq(sh)
    if x.op == 'arr':
        x = x.a[0]
    es = t.seq_elems(shape) if shape.op == 'seq' else None
    if es is not None and sum(e is num(-1) for e in es) == 1:
        n = t.length(x)
        if x.op == 'slice' and x.a[1] in (ZERO, NONE) and x.a[3] in (ONE, NONE) and x.a[2] is not NONE:
            n = x.a[2]
        d = ONE
        for e in es:
            if e is not num(-1):
                d = t.mul(d, e)
        q = t.div(n, d)
        if t.is_int(q) or t.num_equal(t.mul(t.floor(q), d), n):
            shape = t.seq([q if e is num(-1) else e for e in es])
    return mk('call', 'np.reshape', (x, shape), ())


@ext('np.diff')
def _(ev, args, kw, st, node, ctx):
    if len(args) != 1 or kw:
        return None
    x = _d(ev, args[0], st)
    return t.sub(t.slice_(x, ONE, NONE, ONE), t.slice_(x, ZERO, num(-1), ONE))


@ext('np.split')
def _(ev, args, kw, st, node, ctx):
    if len(args) != 2 or kw:
        return None
    x, cuts = _d(ev, args[0], st), _d(ev, args[1], st)
    if t.is_num(cuts):
        return None
    n = t.length(x)
    b = t.seq_append(t.concat(t.seq([ZERO]), cuts), n)
    i = t.fresh_idx()
    return t.collect(t.sub(t.length(b), ONE), i, t.slice_(x, t.item(b, i), t.item(b, t.add(i, ONE)), ONE))


@ext('np.sort')
def _(ev, args, kw, st, node, ctx):
    if len(args) != 1 or kw:
        return None
    x = _d(ev, args[0], st)
    return t.item(x, mk('call', 'np.argsort', (x,), ()))


@ext('np.concatenate', 'np.hstack')
def _concatenate(ev, args, kw, st, node, ctx):
    S = _d(ev, ev.iterval(args[0], st), st)
    es = t.seq_elems(S)
    ax = kw.get('axis', args[1] if len(args) > 1 else ZERO)
    hs = isinstance(node, ast.Call) and ast.dump(node.func).find('hstack') >= 0
    if hs:
        return mk('call', 'np.hstack', (S,), ())
    if es is not None and (ax is ZERO):
        out = EMPTY
        for e in es:
            out = t.concat(out, e.a[0] if e.op == 'arr' else e)
        return mk('arr', out)
    return None


@ext('np.append')
def _npappend(ev, args, kw, st, node, ctx):
    a, b = _d(ev, args[0], st), _d(ev, ev.iterval(args[1], st) if args[1].op == 'ref' else args[1], st)
    a = a.a[0] if a.op == 'arr' else a
    if b.op == 'arr':
        b = b.a[0]
    if t.is_seqlike(b):
        return mk('arr', t.concat(a, b))
    if t.numericish(b):
        return mk('arr', t.seq_append(a, b))
    return None


def polyval(c, x):
    if c.op == 'arr':
        c = c.a[0]
    if c.op == 'call' and c.a[0] == 'np.poly1d':
        c = c.a[1][0]
    if c.op == 'ite':
        return t.ite(c.a[0], polyval(c.a[1], x), polyval(c.a[2], x))
    es = t.seq_elems(c) if c.op == 'seq' else None
    if es is not None and len(es) == 1:
        return es[0]
    return mk('call', 'np.polyval', (c, x), ())


@ext('np.polyval')
def _polyval(ev, args, kw, st, node, ctx):
    a = [_d(ev, ev.iterval(x, st) if x.op == 'ref' else x, st) for x in args] + [None, None]
    c, x = kw.get('p', a[0]), kw.get('x', a[1] if 'p' not in kw else a[0])
    return polyval(c, _d(ev, x, st))


def ndim(x):
    if x.op == 'call' and x.a[0] == 'np.reshape' and t.seq_elems(x.a[1][1]) is not None:
        return len(t.seq_elems(x.a[1][1]))
    if x.op == 'call' and x.a[0] == 'np.transpose' and len(x.a[1]) == 1:
        return ndim(x.a[1][0])
    return None


def norm_axis(x, kw):
    ax = kw.get('axis', NONE)
    if t.is_num(ax) and ax.a[0] < 0 and ndim(x) is not None:
        ax = num(ax.a[0] + ndim(x))
    return {'axis': ax}


def percentile(x, q, kw):
    return mk('call', 'np.percentile', (x,), tuple(sorted(dict(norm_axis(x, kw), q=q).items())))


@ext('np.square')
def _square(ev, args, kw, st, node, ctx):
    return t.power(_d(ev, args[0], st), num(2))


@ext('np.divide', 'np.true_divide')
def _divide(ev, args, kw, st, node, ctx):
    if not kw:
        return t.div(_d(ev, args[0], st), _d(ev, args[1], st))


@ext('np.multiply')
def _multiply(ev, args, kw, st, node, ctx):
    if not kw:
        return t.mul(_d(ev, args[0], st), _d(ev, args[1], st))


@ext('np.subtract')
def _subtract(ev, args, kw, st, node, ctx):
    if not kw:
        return t.sub(_d(ev, args[0], st), _d(ev, args[1], st))


@ext('np.add')
def _npadd(ev, args, kw, st, node, ctx):
    if not kw:
        return t.add(_d(ev, args[0], st), _d(ev, args[1], st))


@ext('np.isclose', 'math.isclose')
def _isclose(ev, args, kw, st, node, ctx):
    a, k = copy_args(ev, 'np.isclose', args, kw, st)
    return mk('truth', mk('call', 'np.isclose', a, k))


@ext('fractions.Fraction')
def _fraction(ev, args, kw, st, node, ctx):
    a, k = copy_args(ev, 'fractions.Fraction', args, kw, st)
    return mk('call', 'fractions.Fraction', a, k)


@ext('open')
def _open(ev, args, kw, st, node, ctx):
    a, k = copy_args(ev, 'open', args, kw, st)
    k = tuple((x, v) for x, v in k if x not in ('buffering',))
    v = mk('call', 'open', a, k)
    ev.event('call', st, node, name='open', args=tuple(args), kwargs=dict(kw), value=v)
    st.heap[(v, '$fs')] = mk('fstart', v)
    return v


@ext('np.fromfile')
def _fromfile(ev, args, kw, st, node, ctx):
    a, k = copy_args(ev, 'np.fromfile', args, kw, st)
    fs = st.heap.get((args[0], '$fs')) if args else None
    if fs is not None:
        st.heap[(args[0], '$fs')] = mk('fafter', fs, 'fromfile')
        f = ev.deref(args[0], st)
        kk = dict(k)
        off = fs.a[0] if fs.op == 'fseek' and len(fs.a) == 1 else (ZERO if fs.op == 'fstart' else None)
        if off is not None and f.op == 'call' and f.a[0] == 'open' and not kk.get('offset') and f.a[1] \
                and all(n == 'mode' for n, v in f.a[2]):
            # reading from a position of an open file is reading the file at that offset
            if off is not ZERO:
                kk['offset'] = off
            a = (f.a[1][0],) + a[1:]
            k = tuple(sorted(kk.items()))
        else:
            a = (mk('fileat', a[0], fs),) + a[1:]
    v = mk('call', 'np.fromfile', a, k)
    ev.event('call', st, node, name='np.fromfile', args=tuple(args), kwargs=dict(kw), value=v)
    return v


@ext('id')
def _id(ev, args, kw, st, node, ctx):
    return mk('call', 'id', (_d(ev, args[0], st),), ())


@ext('typing.cast')
def _tcast(ev, args, kw, st, node, ctx):
    return args[1]


@ext('contextlib.closing', 'contextlib.nullcontext')
def _closing(ev, args, kw, st, node, ctx):
    return args[0] if args else NONE


@ext('os.fspath', 'os.fsdecode', 'sys.intern')
def _fspath(ev, args, kw, st, node, ctx):
    return args[0]


# ---------------------------------------------------------------- methods of values
def method(ev, recv, name, args, kwargs, st, node, ctx):
    isref = recv.op == 'ref'
    kind = ev.refs[recv]['kind'] if isref else None
    if kind == 'inst':
        bases = {q for q, m, nd in ev.mro(ev.refs[recv]['cls']) if m is None}
        kind = 'dict' if 'dict' in bases else ('list' if 'list' in bases else 'inst')
    if kind == 'list' and name in ('append', 'extend', 'insert', 'sort', 'reverse', 'pop', 'clear', 'remove', 'copy', 'index', 'count'):
        return list_method(ev, recv, name, args, kwargs, st, node, ctx)
    if kind == 'dict' or (name in ('get', 'items', 'keys', 'values', 'setdefault', 'update') and not isref) or \
            (ev.typeof(recv) and ev._isdict(recv)):
        r = dict_method(ev, recv, name, args, kwargs, st, node, ctx)
        if r is not None:
            return r
    base = ev.deref(recv, st)
    if base.op == 'glob':
        return external(ev, canon(base.a[0] + '.' + name), args, kwargs, st, node, ctx)
    if name in ('append', 'extend') and not isref:
        # a list held inside another value (element of a container): effect on that element
        ev.event('mutate', st, node, base=recv, how=name, args=tuple(ev.deref(a, st) for a in args))
        c = ev.content(recv, st)
        if name == 'append':
            st.heap[(recv, '$c')] = t.seq_append(c, ev.deref(args[0], st))
        else:
            st.heap[(recv, '$c')] = t.concat(c, ev.deref(ev.iterval(args[0], st), st))
        return NONE
    # strings
    if name == 'format' and base.op == 'const' and isinstance(base.a[0], str):
        return str_format(ev, base.a[0], args, kwargs, st)
    if name == 'join' and len(args) == 1:
        S = ev.deref(ev.iterval(args[0], st), st)
        es = t.seq_elems(S)
        if es is not None and base.op in ('const', 'fstr'):
            parts = []
            for i, e in enumerate(es):
                if i:
                    parts += t._fparts(base)
                parts += t._fparts(e)
            return t.fstr(parts)
    if name in ('encode', 'decode') and not args and not kwargs:
        return mk('mcall', name, (base,), ())
    # files
    if name in FILE_METHODS and (base.op in ('call', 'param') or (recv, '$fs') in st.heap):
        return file_method(ev, recv, base, name, args, kwargs, st, node, ctx)
    # numpy arrays
    if name == 'astype' and (args or 'dtype' in kwargs):
        r = cast(base, ev.deref(args[0] if args else kwargs['dtype'], st))
        if not getattr(ev, 'keep_copies', False):
            return r
        c = args[4] if len(args) > 4 else kwargs.get('copy', t.TRUE)
        # without the copy, an array that already has the type asked for is returned itself
        return mk('copy', r) if ev.deref(c, st) is t.TRUE else mk('maybeview', r)
    if name == 'copy' and not args:
        if base.op == 'dict':
            return ev.new_ref('dict', base)
        return copy_of(ev, base)
    if name == 'reshape':
        return external(ev, 'np.reshape', [recv] + list(args), kwargs, st, node, ctx)
    if name == 'tolist' and not args:
        return ev.new_ref('list', base.a[0] if base.op == 'arr' else base)
    if name == 'item' and not args:
        return base
    if name == 'is_integer':
        return t.eq(base, t.floor(base))
    if name in METHOD_FN:
        return external(ev, METHOD_FN[name], [recv] + list(args), kwargs, st, node, ctx)
    if name in ('map', 'imap') and len(args) >= 2 and is_pool(base):
        S = ev.deref(ev.iterval(args[1], st), st)
        ev.event('call', st, node, name='pool.map', args=tuple(args), kwargs=dict(kwargs), value=base)
        v = over(ev, S, lambda x, s, c: ev.deref(ev.call_value(args[0], [x], {}, s, node, c), s), st, node, ctx)
        return ev.new_ref('list', v)
    if name == 'starmap' and len(args) >= 2 and is_pool(base):
        S = ev.deref(ev.iterval(args[1], st), st)
        ev.event('call', st, node, name='pool.map', args=tuple(args), kwargs=dict(kwargs), value=base)

        def call(x, s, c):
            es = t.seq_elems(x)
            a = es if es is not None else [mk('star', x)]
            return ev.deref(ev.call_value(args[0], list(a), {}, s, node, c), s)
        return ev.new_ref('list', over(ev, S, call, st, node, ctx))
    if name == 'imap_unordered' and len(args) >= 2 and is_pool(base):
        S = ev.deref(ev.iterval(args[1], st), st)
        ev.event('call', st, node, name='pool.map', args=tuple(args), kwargs=dict(kwargs), value=base)
        return mk('call', 'unordered', (over(ev, S, lambda x, s, c: ev.deref(ev.call_value(args[0], [x], {}, s, node, c), s), st, node, ctx),), ())
    if name in ('map_async', 'starmap_async') and len(args) >= 2 and is_pool(base) and not (set(kwargs) - {'chunksize'}):
        v = method(ev, recv, 'map' if name == 'map_async' else 'starmap', args, {}, st, node, ctx)
        ev.event('call', st, node, name='pool.async', args=tuple(args), kwargs=dict(kwargs), value=base)
        return mk('call', 'async', (ev.deref(v, st),), ())
    if name == 'get' and base.op == 'call' and base.a[0] == 'async':
        ev.event('call', st, node, name='pool.get', args=tuple(args), kwargs=dict(kwargs), value=base)
        return ev.new_ref('list', base.a[1][0])
    if name == '__enter__' and not args:
        return recv
    if name == '__getitem__':
        return ev.subscript(recv, ev.deref(args[0], st), st, node)
    if name == '__setitem__':
        ev.setitem(recv, ev.deref(args[0], st), args[1], st, node)
        return NONE
    if name == '__len__':
        return t.length(base)
    if name in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'splitlines', 'startswith', 'endswith',
                'replace', 'partition', 'rpartition', 'find', 'isdigit', 'zfill', 'title'):
        a = tuple(ev.deref(x, st) for x in args)
        kw = {k: ev.deref(v, st) for k, v in kwargs.items()}
        if name in ('split', 'rsplit'):
            b = dict(zip(('sep', 'maxsplit'), a))
            b.update(kw)
            if b.get('sep') is NONE:
                b.pop('sep')
            a, kw = (), b
        v = mk('mcall', name, (base,) + a, tuple(sorted(kw.items())))
        return mk('truth', v) if name in ('startswith', 'endswith', 'isdigit') else v
    v = ev.generic_method(name, base, args, kwargs, st, node)
    ev.event('call', st, node, name='.' + name, recv=recv, args=tuple(args), kwargs=dict(kwargs), value=v)
    return v


def is_pool(base):
    return base.op == 'call' and base.a[0] in ('multiprocessing.Pool', 'concurrent.futures.ProcessPoolExecutor',
                                               'multiprocessing.pool.ThreadPool', 'multiprocessing.dummy.Pool') or \
        (base.op == 'mcall' and base.a[0] == 'Pool')


def list_method(ev, recv, name, args, kwargs, st, node, ctx):
    c = ev.content(recv, st)
    if c is None:
        c = EMPTY
    if name == 'copy':
        return ev.new_ref('list', c)
    if name in ('index', 'count'):
        return mk('mcall', name, (ev.deref(c, st),) + tuple(ev.deref(a, st) for a in args), ())
    ev.event('mutate', st, node, base=recv, how=name, args=tuple(ev.deref(a, st) for a in args))
    if name == 'append':
        ev.set_content(recv, t.seq_append(c, args[0]), st)
        return NONE
    if name == 'extend':
        ev.set_content(recv, t.concat(c, ev.iterval(args[0], st)), st)
        return NONE
    if name == 'insert':
        k = ev.deref(args[0], st)
        if k is ZERO:
            ev.set_content(recv, t.concat(t.seq([args[1]]), c), st)
        else:
            ev.set_content(recv, mk('inserted', ev.deref(c, st), k, ev.deref(args[1], st)), st)
        return NONE
    if name == 'sort':
        ev.set_content(recv, sort_term(ev, c, kwargs.get('key'), kwargs.get('reverse'), st, node), st)
        return NONE
    if name == 'reverse':
        ev.set_content(recv, reverse(ev.deref(c, st)), st)
        return NONE
    if name == 'clear':
        ev.set_content(recv, EMPTY, st)
        return NONE
    if name == 'pop':
        k = ev.deref(args[0], st) if args else num(-1)
        d = ev.deref(c, st)
        es = t.seq_elems(d)
        if es is not None and t.is_num(k):
            es = list(es)
            v = es.pop(int(k.a[0]))
            ev.set_content(recv, t.seq(es), st)
            return v
        if k is ZERO:
            ev.set_content(recv, t.slice_(d, ONE, NONE, NONE), st)
        elif k is num(-1):
            ev.set_content(recv, t.slice_(d, NONE, num(-1), NONE), st)
        else:
            ev.set_content(recv, mk('without', d, k), st)
        return t.item(d, k)
    ev.set_content(recv, mk('mcall', name, (ev.deref(c, st),) + tuple(ev.deref(a, st) for a in args), ()), st)
    return NONE


def dict_method(ev, recv, name, args, kwargs, st, node, ctx):
    c = ev._as_dict(recv, st)
    if c is None:
        return None
    if name == 'get' and args:
        k = ev.deref(args[0], st)
        dflt = args[1] if len(args) > 1 else kwargs.get('default', NONE)
        has = ev.contains(k, c, st)
        if has is TRUE:
            return t.item(c, k)
        if has is FALSE:
            return dflt
        return ite(has, ev.deref(t.item(c, k), st), ev.deref(dflt, st))
    if name == 'items' and not args:
        return dict_items(c if c.op == 'dict' else ev.deref(c, st))
    if name == 'keys' and not args:
        if c.op == 'dict' and all(t.is_const(k) for k, _ in c.a[0]):
            return t.seq([k for k, _ in c.a[0]])
        return mk('keys', ev.deref(c, st))
    if name == 'values' and not args:
        return dict_values(c if c.op == 'dict' else ev.deref(c, st))
    if name == 'copy' and not args:
        return ev.new_ref('dict', c)
    if name in ('update', 'setdefault', 'pop', 'clear', 'popitem'):
        ev.event('mutate', st, node, base=recv, how=name, args=tuple(ev.deref(a, st) for a in args),
                 kwargs={k: ev.deref(v, st) for k, v in kwargs.items()})
    if name == 'update':
        d = c
        for a in args:
            x = ev._as_dict(a, st)
            S = ev.deref(x, st)
            if S.op in ('collect', 'zip') or (t.seq_elems(S) is not None):
                x = pairs_dict(S)
            d = t.dict_update(d, x)
        for k, v in kwargs.items():
            d = t.dict_update(d, ev.deref(v, st)) if k == '**' else t.dict_set(d, const(k), v)
        ev.set_content(recv, d, st)
        return NONE
    if name == 'setdefault':
        k = ev.deref(args[0], st)
        dv = args[1] if len(args) > 1 else NONE
        has = ev.contains(k, c, st)
        if has is TRUE:
            return t.item(c, k)
        if has is FALSE:
            ev.set_content(recv, t.dict_set(c, k, dv), st)
            return dv
        v = ite(has, ev.deref(t.item(c, k), st), ev.deref(dv, st))
        ev.set_content(recv, t.dict_set(c, k, v), st)
        return v
    if name == 'pop' and args:
        k = ev.deref(args[0], st)
        if c.op == 'dict' and t.is_const(k) and all(t.is_const(kk) for kk, _ in c.a[0]):
            hit = [v for kk, v in c.a[0] if kk is k]
            ev.set_content(recv, mk('dict', tuple((kk, v) for kk, v in c.a[0] if kk is not k)), st)
            if hit:
                return hit[0]
            return args[1] if len(args) > 1 else mk('undef')
        d = ev.deref(c, st)
        ev.set_content(recv, mk('without', d, k), st)
        if len(args) > 1:
            return ite(ev.contains(k, d, st), t.item(d, k), ev.deref(args[1], st))
        return t.item(d, k)
    if name == 'clear':
        ev.set_content(recv, t.dict_([]), st)
        return NONE
    return None


def file_method(ev, recv, base, name, args, kwargs, st, node, ctx):
    fs = st.heap.get((recv, '$fs'))
    if fs is None:
        fs = mk('fstart', base)
    a = tuple(ev.deref(x, st) for x in args)
    if name == 'seek':
        if len(a) == 2 and (a[1] is ZERO or a[1] == mk('glob', 'os.SEEK_SET')):
            a = a[:1]
        nfs = mk('fseek', *a)
        v = NONE
    elif name == 'tell':
        nfs, v = fs, mk('ftell', fs)
        t.INT_ATOMS.add(v)
    elif name == 'write':
        nfs, v = mk('fwritten', fs, *a), NONE
    elif name in ('close', 'flush'):
        nfs, v = fs, NONE
    else:
        nfs, v = mk('fafter', fs, name, *a), mk('fread', name, base, fs, *a)
    ev.event('call', st, node, name='.' + name, recv=recv, args=tuple(args), kwargs=dict(kwargs), value=v)
    st.heap[(recv, '$fs')] = nfs
    return v
