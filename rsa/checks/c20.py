"""C20: saved objects are loaded back from the same fields."""
import ast

from .. import terms as t
from ..spec import SPEC, Suite, decide
from . import pipe

EXPLANATION = (
    'The encoder is evaluated statically on an arbitrary object of every supported kind, and the decoder on the resulting document: '
    'the composition must reduce to the object itself (base64 and buffer conversions cancel only for C-ordered bytes, an '
    'endianness-preserving type string and the original shape; the decoded array must be a copy, as a buffer view is read-only). Every '
    'class with a to_dict method must be reachable by the decoder, and its from_dict must rebuild every field of the instance from '
    'what to_dict emits. File and string forms must go through the same encoder and decoder.')
MINIMUM = 20

SER = 'riptide.serialization'
SRC = '''
import json
import importlib
import numpy as np
import pandas
from astropy.coordinates import SkyCoord
import astropy.units as uu
from riptide.serialization import JSONEncoder, object_hook, get_riptide_version, to_json, from_json

def enc(obj):
    return JSONEncoder().default(obj)

def dec(items):
    return object_hook(items)

def rows(x):
    return pandas.DataFrame(x.values, columns=list(x.columns))

def rows_index(x):
    return pandas.DataFrame(x.values, columns=list(x.columns), index=list(x.index))

def sky(x):
    return SkyCoord(x.icrs.ra.deg * uu.deg, x.icrs.dec.deg * uu.deg, frame='icrs')

def sky_unit(x):
    return SkyCoord(x.icrs.ra.deg, x.icrs.dec.deg, unit='deg', frame='icrs')

def sky_kw(x):
    return SkyCoord(ra=x.icrs.ra.deg * uu.deg, dec=x.icrs.dec.deg * uu.deg, frame='icrs')

def load(fname):
    with open(fname, 'r') as f:
        return from_json(f.read())

def load_direct(fname):
    with open(fname, 'r') as f:
        return json.load(f, object_hook=object_hook)

def parse(s):
    return json.loads(s, object_hook=object_hook)

def version_of(items):
    return items['__version__'] if '__version__' in items else get_riptide_version()

def version_get(items):
    return items.get('__version__', get_riptide_version())
'''
O = t.mk('param', 'obj')
# methods of arrays and tables that drop or alter entries
LOSSY = ('head', 'tail', 'sample', 'round', 'drop', 'dropna', 'drop_duplicates', 'nlargest', 'nsmallest', 'clip', 'sort_values', 'fillna', 'mean', 'sum', 'max', 'min')
KINDS = (('numpy.ndarray', 'np.ndarray'), ('pandas.DataFrame', 'pandas.DataFrame'), ('astropy.SkyCoord', 'astropy.coordinates.SkyCoord'))


def isinsts(x):
    """type tests on the object inside a term: {class name: test}"""
    out = {}
    for y in t.subterms(x):
        if y.op == 'isinst' and y.a[0] is O:
            c = y.a[1]
            out[c if isinstance(c, str) else c.a[0] if c.op == 'glob' else t.show(c)] = y
    return out


def cancel(x):
    """conversions that undo each other"""
    def bytes_of(y):
        if y.op == 'attr' and y.a[1] == 'data' and y.a[0].op == 'call' and y.a[0].a[0] == 'np.ascontiguousarray':
            return y.a[0].a[1][0]
        if y.op == 'mcall' and y.a[0] in ('tobytes', 'tostring') and (not y.a[1][1:] or y.a[1][1:] == (t.mk('const', 'C'),)) and not (y.a[2] if len(y.a) > 2 else ()):
            z = y.a[1][0]
            return z.a[1][0] if z.op == 'call' and z.a[0] == 'np.ascontiguousarray' else z
        return None

    def dtype_of(d):
        if d.op == 'fstr' and len(d.a[0]) == 1:
            d = d.a[0][0]
            while isinstance(d, tuple):
                d = d[1] if len(d) > 1 and isinstance(d[1], t.T) else d[0]
        if d.op == 'attr' and d.a[1] == 'str' and d.a[0].op == 'attr':
            d = d.a[0]
        if d.op == 'call' and d.a[0] in ('str', 'np.dtype') and len(d.a[1]) == 1:
            return dtype_of(d.a[1][0])
        if d.op == 'attr' and d.a[1] == 'dtype':
            return d.a[0]
        return None

    def f(y):
        if y.op == 'mcall' and y.a[0] == 'encode' and y.a[1][0].op == 'mcall' and y.a[1][0].a[0] == 'decode':
            return y.a[1][0].a[1][0]
        if y.op == 'mcall' and y.a[0] in ('decode', 'encode') and y.a[1][0].op == 'call' and y.a[1][0].a[0] in ('base64.b64encode', 'base64.standard_b64encode'):
            return y.a[1][0]                # b64decode accepts text as well
        if y.op == 'call' and y.a[0] in ('base64.b64decode', 'base64.standard_b64decode') and y.a[1][0].op == 'call' \
                and y.a[1][0].a[0] in ('base64.b64encode', 'base64.standard_b64encode'):
            return y.a[1][0].a[1][0]
        if y.op == 'call' and y.a[0] == 'np.frombuffer':
            kw = dict(y.a[2]) if len(y.a) > 2 else {}
            src = bytes_of(y.a[1][0])
            d = y.a[1][1] if len(y.a[1]) > 1 else kw.pop('dtype', None)
            kw.pop('dtype', None)
            if src is not None and d is not None and dtype_of(d) is src and not kw and len(y.a[1]) <= 2:
                return t.mk('flat', src)
        if y.op == 'call' and y.a[0] == 'np.reshape' and y.a[1][0].op == 'flat':
            src = y.a[1][0].a[0]
            sh = y.a[1][1]
            want = t.attr(src, 'shape')
            if sh is want or sh is t.mk('call', 'tuple', (want,), ()) or (sh.op == 'seq' and len(sh.a[0]) == 1 and sh.a[0][0][1] is want):
                return src
        if y.op == 'app' and y.a[0] == SER + '.JSONEncoder.default':
            return dict(y.a[1])['obj']
        return None
    return t.replace(x, f)


def classes(prog):
    """classes of the package that have a to_dict method: {dotted: ClassDef}"""
    out = {}
    for mn, m in prog.modules.items():
        if mn == SPEC:
            continue
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef) and any(isinstance(f, ast.FunctionDef) and f.name == 'to_dict' for f in n.body):
                out[mn + '.' + n.name] = n
    return out


def run(rep):
    s = Suite(rep, SRC)
    flags = dict(flags=dict(keep_copies=True, keep_contig=True))
    where = s.where(SER + '.JSONEncoder')
    wdec = s.where(SER + '.object_hook')
    e = s.run(SPEC + '.enc', **flags)
    rule = 'decoding what was encoded gives the same object'
    tests = isinsts(e.ret) if e is not None else {}
    docs = {}
    if e is None:
        rep.undecided(rule, 'encoder', where, s.last_error)
    else:
        def under(kind):
            """result of the encoder for an object of exactly this kind"""
            f = t.TRUE
            for n, y in tests.items():
                f = t.land(f, y if n == kind or (isinstance(kind, tuple) and n in kind) else t.lnot(y))
            return t.assume(e.ret, f)
        for label, kind in KINDS:
            if kind not in tests:
                rep.violated(rule, label, where, 'the encoder has no case for it')
                continue
            doc = under(kind)
            if doc.op != 'dict':
                rep.undecided(rule, label, where, 'encoded as %s' % t.show(doc)[:200])
                continue
            docs[label] = doc
            keys = {k.a[0] for k, v in doc.a[0] if k.op == 'const'}
            narrow = [y for y in t.subterms(doc) if y.op == 'cast' and label != 'astropy.SkyCoord' and any(z is O for z in t.subterms(y.a[0]))
                      and t.show(y.a[1]) not in ('float', 'np.float64', 'np.double', 'object', 'np.longdouble')]
            if narrow:
                rep.violated(rule, label + ': element type', where, 'converted to %s before it is written' % t.show(narrow[0].a[1]))
            r = s.run(SPEC + '.dec', fixed={'items': doc}, **flags)
            if r is None:
                rep.undecided(rule, label, wdec, s.last_error)
                continue
            if s.value(r) is doc or any(n == 'KeyError' for c, n in r.raises):
                rep.violated(rule, label, wdec, 'the decoder does not recognise the document (keys %s)' % sorted(keys))
                continue
            v = cancel(s.value(r))
            iscopy = lambda y: y.op == 'copy' or (y.op == 'call' and y.a[0] in ('np.copy', 'np.array') or y.op == 'mcall' and y.a[0] == 'copy') and len(y.a[1]) == 1
            fresh = any(iscopy(y) for y in t.subterms(v))
            v = cancel(t.replace(v, lambda y: (y.a[0] if y.op == 'copy' else y.a[1][0]) if iscopy(y) else y.a[0] if y.op == 'maybeview' else None))
            if label == 'numpy.ndarray':
                orders = [y for y in t.subterms(v) if y.op in ('mcall', 'call') and y.a[0] in ('tobytes', 'ravel', 'flatten', 'np.ravel', 'np.asfortranarray', 'np.array', 'np.asarray')
                          and any(x.op == 'const' and x.a[0] in ('A', 'F', 'K') for x in tuple(y.a[1][1:]) + tuple(w for k, w in (y.a[2] if len(y.a) > 2 else ()) if k == 'order'))]
                if orders:
                    rep.violated(rule, label, where, 'the bytes are taken in the memory order of the array, and read back in C order: %s' % t.show(orders[0])[:200])
                else:
                    s.judge(rule, label, v, [O], wdec)
                rep.check(fresh, 'arrays in a loaded object are writable', label, wdec, 'a view of the decoded bytes is returned')
            else:
                refs = {'pandas.DataFrame': ['rows', 'rows_index'], 'astropy.SkyCoord': ['sky', 'sky_unit', 'sky_kw']}[label]
                s.judge(rule, label, v, [cancel(s.value(s.run(SPEC + '.' + n, fixed={'x': O}, **flags))) for n in refs], wdec)
        def number(v, names):
            v = v.a[0] if v.op == 'floor' else v
            return v is O or v.op == 'cast' and v.a[0] is O and t.show(v.a[1]) in names or \
                v.op in ('mcall', 'call') and v.a[1] == (O,) and v.a[0] in ('item', 'tolist', '__int__', '__float__', '__index__', 'operator.index') + names
        for label, kind, names in (('numpy integers', 'np.integer', ('int', 'np.int64')), ('numpy floats', 'np.floating', ('float', 'np.float64'))):
            hit = next((n for n in tests if n in (kind, 'np.number', 'np.generic')), None)
            if hit is None:
                rep.violated('numpy numbers are written as numbers', label, where, 'the encoder has no case for it')
            else:
                v = under(hit)
                if number(v, names):
                    rep.holds('numpy numbers are written as numbers', label, where)
                else:
                    s.judge('numpy numbers are written as numbers', label, v, [O], where)

    # riptide objects
    exported = s.prog.modules['riptide'].defs
    rule = 'every field of the object is rebuilt from what is written'
    cl = classes(s.prog)
    for must in ('TimeSeries', 'Periodogram', 'Candidate', 'Metadata'):
        if not any(q.endswith('.' + must) for q in cl):
            rep.violated(rule, must, s.where('riptide.' + must), 'it has no to_dict method')
    for q, n in sorted(cl.items()):
        name = n.name
        w = s.where(q)
        d = exported.get(name)
        ok = d is not None and s.prog.resolve('riptide.' + name) is not None and s.prog.resolve('riptide.' + name)[3] == q
        rep.check(ok, 'the decoder finds the class of every object written', name, w, 'riptide.%s is not this class' % name)
        if name == 'Metadata':
            s.prog.add_source(SPEC, SRC + '\nfrom riptide import Metadata\ndef rt(self):\n    return Metadata.from_dict(self.to_dict())\ndef rt_ref(self):\n    return Metadata(dict(self))\n')
            a, b = [s.run(SPEC + '.' + x, types={'self': q}, opaque=(q,)) for x in ('rt', 'rt_ref')]
            if a is None or b is None:
                rep.undecided(rule, name, w, s.last_error)
            else:
                strip = lambda x: t.replace(x, lambda y: y.a[1][0] if y.op == 'call' and y.a[0] == 'dict' and len(y.a[1]) == 1 else None)
                s.judge(rule, name, strip(s.value(a)), [strip(s.value(b))], w)
            continue
        s.prog.add_source(SPEC, SRC + '\nfrom riptide import %s as K\ndef rt(obj):\n    return K.from_dict(JSONEncoder().default(obj))\n' % name)
        fl = dict(flags)
        e2 = s.run(SPEC + '.enc', types={'obj': q}, opaque=('riptide.metadata.Metadata',), **flags)
        if e2 is None:
            rep.undecided(rule, name, w, s.last_error)
            continue
        f = t.TRUE
        for y in isinsts(e2.ret).values():
            f = t.land(f, t.lnot(y))
        for y in t.subterms(e2.ret):
            if y.op == 'in' and y.a[0] is t.mk('const', 'to_dict'):
                f = t.land(f, y)
        doc = t.replace(t.assume(e2.ret, f), lambda y: t.attr(O, 'version') if y.op == 'call' and y.a[0] == 'getattr' and y.a[1][:2] == (O, t.mk('const', 'version')) else None)
        # the version is a case of its own
        vers = [y for y in t.subterms(doc) if y.op == 'in' and y.a[0] is t.mk('const', 'version')]
        has = t.truth(t.attr(O, 'version'))
        doc1 = t.assume(t.assume(doc, t.land(*vers)), has)
        if doc1.op != 'dict':
            rep.undecided(rule, name, w, 'written as %s' % t.show(doc1)[:200])
            continue
        items = {k.a[0]: v for k, v in doc1.a[0] if k.op == 'const'}
        ty = items.get('__type__')
        okty = ty is not None and (ty.op == 'attr' and ty.a[1] == '__name__' and (ty.a[0].op == 'call' and ty.a[0].a[0] == 'type' or ty.a[0].op == 'attr' and ty.a[0].a[1] == '__class__')
                                   or ty is t.mk('const', name) or ty.op == 'typename')
        rep.check(okty, 'the class name is written', name, where, 'written: %s' % (ty and t.show(ty)))
        vv = items.get('__version__')
        rep.check(vv is not None and vv is t.attr(O, 'version'), 'the version of the object is written', name, where, 'written: %s' % (vv and t.show(vv)))
        r = s.run(q + '.from_dict', fixed={s.argnames(q + '.from_dict')[0][1]: doc1}, opaque=('riptide.metadata.Metadata',), **flags)
        if r is None:
            rep.undecided(rule, name, w, s.last_error)
            continue
        keyerr = [c for c, x in r.raises if x == 'KeyError' and c is not t.FALSE]
        if keyerr:
            rep.violated(rule, name, w, 'the loader needs an entry that is not written')
            continue
        fields = sorted({x for (loc, x) in r.state.heap if loc is r.raw})
        if not fields:
            rep.undecided(rule, name, w, 'from_dict does not build an instance: %s' % t.show(r.ret)[:200])
            continue
        # same construction as the object itself went through
        for fld in fields:
            v = cancel(r.ev.deref(r.ev.getattr(r.raw, fld, r.state, None), r.state))
            me = t.attr(O, fld)
            variants = [me]
            if v.op == 'rec' and me.op == 'attr' and dict(v.a[1]).get('$c') is not None:
                # attributes of a rebuilt header: the entries the constructor itself sets are the ones it set on the object
                c = dict(v.a[1])['$c']
                v = next((src for src in [me] if rests_on(c, src)), c)
            v = t.replace(v, plain)
            lossy = [y.a[0] for y in t.subterms(v) if y.op == 'mcall' and y.a[0] in LOSSY]
            if lossy:
                rep.violated(rule, '%s.%s' % (name, fld), w, 'written or read through %s: %s' % (', '.join(lossy), t.show(v)[:200]))
                continue
            s.judge(rule, '%s.%s' % (name, fld), v, variants, w, given=t.lnot(t.isnone(me)))

    # decoding of riptide objects
    rule = 'an object is decoded by its own class and keeps its version'
    I = t.mk('param', 'items')
    d = s.run(SPEC + '.dec', flags=dict(keep_copies=True))
    if d is None:
        rep.undecided(rule, 'object_hook', wdec, s.last_error)
    else:
        ty = t.item(I, t.mk('const', '__type__'))
        f = t.TRUE
        for y in t.subterms(d.ret):
            if y.op == 'in' and y.a[0] is t.mk('const', '__type__'):
                f = t.land(f, y)
            if y.op == 'eq' and (y.a[0] is ty or y.a[1] is ty):
                f = t.land(f, t.lnot(y))
        v = t.assume(s.value(d), f)
        none = t.assume(s.value(d), t.lnot(t.land(*[y for y in t.subterms(d.ret) if y.op == 'in' and y.a[0] is t.mk('const', '__type__')])))
        s.judge('plain dictionaries are left alone', 'object_hook', none, [I], wdec)
        mod = t.mk('call', 'importlib.import_module', (t.mk('const', 'riptide'),), ())
        ok = v.op == 'mcall' and v.a[0] == 'from_dict' and v.a[1][1:] == (I,) and any(y is ty for y in t.subterms(v.a[1][0])) and \
            any(y.op == 'const' and y.a[0] == 'riptide' or y.op == 'glob' and str(y.a[0]).startswith('riptide') for y in t.subterms(v.a[1][0]))
        if ok:
            rep.holds(rule, 'object_hook: class', wdec)
        elif v.op == 'mcall' and v.a[0] == 'from_dict' or v is I:
            rep.violated(rule, 'object_hook: class', wdec, 'found: %s' % t.show(v)[:300])
        else:
            rep.undecided(rule, 'object_hook: class', wdec, t.show(v)[:300])
        sets = [e for e in d.events if e.kind == 'setattr' and e.data['name'] == 'version'] + \
               [e for e in d.events if e.kind == 'call' and e.data['name'] == 'setattr']
        if not sets:
            rep.violated(rule, 'object_hook: version', wdec, 'the version read is not given to the object')
        elif sets[0].kind == 'call':
            rep.undecided(rule, 'object_hook: version', wdec, 'setattr')
        else:
            has = [y for y in t.subterms(t.land(*[x.guard for x in sets])) if y.op == 'in' and y.a[0] is t.mk('const', '__version__')]
            got = None
            for x in sets:
                val = d.ev.deref(x.data['value'], d.state)
                g = x.guard
                cond = t.land(*[c for c in (g.a[0] if g.op == 'and' else [g]) if any(y.op == 'in' and y.a[0] is t.mk('const', '__version__') for y in t.subterms(c))])
                got = val if got is None else t.ite(cond, val, got)
            refs = [s.value(s.run(SPEC + '.' + x)) for x in ('version_of', 'version_get')]
            inn = [y for x in refs for y in t.subterms(x) if y.op == 'in']
            s.judge(rule, 'object_hook: version', t.assume(got, t.land(*inn)), [t.assume(x, t.land(*inn)) for x in refs], sets[0].where)

    # entry points
    rule = 'file and string forms use the same encoding'
    q = SER + '.to_json'
    r = s.run(q)
    a0 = t.mk('param', s.argnames(q)[0][0])
    enc_cls = t.mk('glob', SER + '.JSONEncoder')

    def encodes(r, what, subj, w, names):
        es = [e for e in r.events if e.kind == 'call' and e.data['name'] in names]
        if not es:
            return rep.undecided(rule, subj, w, 'no call of %s' % '/'.join(names))
        for e in es:
            kw = dict(e.data['kwargs'])
            c = kw.get('cls')
            if c is None and '**' in kw:
                dd = r.ev.deref(kw['**'], r.state)
                c = t.item(dd, t.mk('const', 'cls')) if dd.op == 'dict' else None
            c = r.ev.deref(c, r.state) if c is not None else None
            arg = e.data['args'][0] if e.data['args'] else kw.get('obj')
            if c is None and '**' in kw:
                rep.undecided(rule, subj, e.where, 'keywords %s' % t.show(kw['**'])[:200])
            else:
                ok = c is not None and (c is enc_cls or t.contains(c, enc_cls))
                rep.check(ok and arg is what, rule, subj, e.where, 'cls=%s, object %s' % (c and t.show(c), t.show(arg)))
    if r is None:
        rep.undecided(rule, 'to_json', s.where(q), s.last_error)
    else:
        encodes(r, a0, 'to_json', s.where(q), ('json.dumps',))
    s.fn(SER + '.from_json', ['parse'], rule=rule, parts=('ret',))
    s.fn(SER + '.load_json', ['load', 'load_direct'], rule=rule, parts=('ret',))
    q = SER + '.save_json'
    r = s.run(q, opaque=(SER + '.to_json',))
    if r is None:
        rep.undecided(rule, 'save_json', s.where(q), s.last_error)
    else:
        names = s.argnames(q)[0]
        fn, ob = t.mk('param', names[0]), t.mk('param', names[1])
        es = [e for e in r.events if e.kind == 'call' and e.data['name'] == '.write']
        dumps = [e for e in r.events if e.kind == 'call' and e.data['name'] == 'json.dump']
        if es:
            for e in es:
                x = e.data['args'][-1]
                b = dict(x.a[1]) if x.op == 'app' and x.a[0] == SER + '.to_json' else {}
                ok = b and list(b.values()).count(ob) == 1
                opened = any(y is fn for y in t.subterms(e.data['recv'])) if isinstance(e.data.get('recv'), t.T) else True
                if not b and x.op in ('call', 'mcall') and x.a[0] not in ('json.dumps',):
                    rep.undecided(rule, 'save_json', e.where, t.show(x)[:200])
                else:
                    rep.check(bool(ok and opened), rule, 'save_json', e.where, 'writes %s to %s' % (t.show(x)[:200], t.show(e.data['recv'])))
        elif dumps:
            encodes(r, ob, 'save_json', s.where(q), ('json.dump',))
        else:
            rep.undecided(rule, 'save_json', s.where(q), 'no write found')


def rests_on(c, src):
    """a dictionary made of all entries of `src`, with only 'tobs' (set by the constructor from the data) put over them"""
    if c.op != 'dict' or not c.a[0]:
        return False
    (k0, v0), rest = c.a[0][0], c.a[0][1:]
    v0 = t.assume(t.replace(v0, plain), t.lnot(t.isnone(src)))
    return k0.op == 'splice' and v0 is src and all(k is t.mk('const', 'tobs') for k, v in rest)


def plain(y):
    """value kept by a constructor: conversions that are identities on a stored field"""
    if y.op == 'app' and y.a[0] == 'riptide.metadata.Metadata':
        return dict(y.a[1]).get('items')
    if y.op == 'call' and y.a[0] in ('np.copy', 'np.asarray', 'np.array', 'np.ascontiguousarray', 'float', 'Metadata') and len(y.a[1]) == 1:
        return y.a[1][0]
    if y.op in ('cast', 'maybeview', 'copy'):
        return y.a[0]
    return None
