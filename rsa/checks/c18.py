"""C18: every documented parameter and command-line option has its effect."""
import ast
import re

from .. import terms as t
from ..eval import Unsupported
from ..spec import SPEC, Suite
from . import pipe

EXPLANATION = (
    'For every function whose documentation has a parameter section, each parameter must occur in the value-flow normal form of its '
    'result, refusals or effects (other documented functions kept symbolic, each being an obligation of its own). Wrappers and the '
    'signal generator are compared with reference definitions, signatures with the documented defaults. The option tables of both '
    'programs are read off the analysis of their parser functions, and what the programs do with each option is compared with '
    'reference programs.')
MINIMUM = 90

SRC = '''
import logging
import json
import yaml
import numpy as np
import pandas
import riptide.libcpp as libcpp
from riptide import TimeSeries, Metadata, ffa_search, find_peaks
from riptide.clustering import cluster1d
from riptide.libffa import generate_signal, ffafreq
from riptide.pipeline.pipeline import Pipeline

def signal(nsamp, period, phi0=0.5, ducy=0.02, amplitude=10.0, stdnoise=1.0):
    kappa = np.log(2.0) / (2.0 * np.sin(np.pi * ducy / 2.0) ** 2)
    x = np.exp(kappa * (np.cos((np.arange(nsamp) / period - phi0) * (2 * np.pi)) - 1.0))
    x = x * (amplitude * (x ** 2).sum() ** -0.5)
    if stdnoise > 0.0:
        return x + np.random.normal(size=nsamp, loc=0.0, scale=stdnoise)
    return x

def signal_b(nsamp, period, phi0=0.5, ducy=0.02, amplitude=10.0, stdnoise=1.0):
    kappa = np.log(2.0) / (2.0 * np.sin(np.pi * ducy / 2.0) ** 2)
    x = np.exp(kappa * (np.cos((np.arange(nsamp) / period - phi0) * (2 * np.pi)) - 1.0))
    x = x * (amplitude * (x ** 2).sum() ** -0.5)
    if stdnoise > 0.0:
        return x + np.random.normal(0.0, stdnoise, nsamp)
    return x

def generated(length, tsamp, period, phi0, ducy, amplitude, stdnoise):
    ts = TimeSeries.generate(length, tsamp, period, phi0=phi0, ducy=ducy, amplitude=amplitude, stdnoise=stdnoise)
    return ts

def generated_ref(length, tsamp, period, phi0, ducy, amplitude, stdnoise):
    data = generate_signal(int(round(length / tsamp)), period / tsamp, phi0=phi0, ducy=ducy, amplitude=amplitude, stdnoise=stdnoise)
    return TimeSeries(data, tsamp, copy=False, metadata=Metadata({
        'source_name': 'fake', 'signal_shape': 'Von Mises', 'signal_period': period, 'signal_initial_phase': phi0,
        'signal_duty_cycle': ducy}))

def boxcar(data, widths, stdnoise=1.0):
    w = np.asarray(widths, dtype=np.uint64)
    flat = data.reshape(-1, data.shape[-1]).astype(np.float32)
    return libcpp.snr2(flat, w, stdnoise).reshape(list(data.shape[:-1]) + [w.size])

def boxcar_b(data, widths, stdnoise=1.0):
    w = np.asarray(widths, dtype=np.uint64)
    flat = data.reshape(-1, data.shape[-1]).astype(np.float32)
    return libcpp.snr2(flat, w, stdnoise).reshape(list(data.shape[:-1]) + [len(w)])

def two(data):
    return libcpp.ffa2(data)

def one(data, p):
    m = data.size // p
    return libcpp.ffa2(data[:m * p].reshape(m, p))

def prd(N, p, dt=1.0):
    return 1.0 / ffafreq(N, p, dt=dt)

def down(data, factor):
    return libcpp.downsample(data, factor)

def from_yaml(fname):
    with open(fname, 'r') as fobj:
        conf = yaml.safe_load(fobj)
    return Pipeline(conf)

def from_yaml_b(fname):
    with open(fname, 'r') as fobj:
        text = fobj.read()
    return Pipeline(yaml.safe_load(text))

def called_yaml(fname):
    return Pipeline.from_yaml_config(fname)

def rseek(args):
    ts = {'sigproc': TimeSeries.from_sigproc, 'presto': TimeSeries.from_presto_inf}[args.format](args.fname)
    __, pgram = ffa_search(ts, period_min=args.Pmin, period_max=args.Pmax, bins_min=args.bmin, bins_max=args.bmax,
                           rmed_width=args.rmed_width, rmed_minpts=args.rmed_minpts, wtsp=args.wtsp, fpmin=1, ducy_max=0.3)
    peaks, __ = find_peaks(pgram, smin=args.smin, clrad=args.clrad)
    if not peaks:
        return None
    groups = cluster1d(np.asarray([p.freq for p in peaks]), r=args.clrad / ts.length)
    best = [max([peaks[i] for i in g], key=lambda p: p.snr) for g in groups]
    best = sorted(best, key=lambda p: p.snr, reverse=True)
    df = pandas.DataFrame(best)
    return df.drop(columns=['iw', 'ip'])

def rffa(args):
    p = Pipeline.from_yaml_config(args.config)
    p.process(args.files, args.outdir)

def rffa_kw(args):
    p = Pipeline.from_yaml_config(args.config)
    p.process(args.files, outdir=args.outdir)

def level(args):
    handlers = [logging.StreamHandler()]
    if args.logfile:
        handlers.append(logging.FileHandler(args.logfile, mode='w'))
    logging.basicConfig(level=args.log_level, handlers=handlers)
'''

DEFAULTS = {
    'search.ffa_search': {'period_min': 1.0, 'period_max': 30.0, 'fpmin': 8, 'bins_min': 240, 'bins_max': 260, 'ducy_max': 0.2,
                          'wtsp': 1.5, 'deredden': True, 'rmed_width': 4.0, 'rmed_minpts': 101, 'already_normalised': False},
    'peak_detection.find_peaks': {'smin': 6.0, 'segwidth': 5.0, 'nstd': 6.0, 'minseg': 10, 'polydeg': 2, 'clrad': 0.1},
    'libffa.generate_signal': {'phi0': 0.5, 'ducy': 0.02, 'amplitude': 10.0, 'stdnoise': 1.0},
    'libffa.ffafreq': {'dt': 1.0},
    'libffa.ffaprd': {'dt': 1.0},
    'libffa.boxcar_snr': {'stdnoise': 1.0},
    'running_medians.fast_running_median': {'min_points': 101},
    'clustering.cluster1d': {'already_sorted': False},
    'folding.fold': {'subints': None},
    'time_series.TimeSeries.deredden': {'minpts': 101, 'inplace': False},
    'time_series.TimeSeries.normalise': {'inplace': False},
    'time_series.TimeSeries.downsample': {'inplace': False},
    'time_series.TimeSeries.fold': {'subints': None},
    'time_series.TimeSeries.generate': {'phi0': 0.5, 'ducy': 0.02, 'amplitude': 10.0, 'stdnoise': 1.0},
    'time_series.TimeSeries.from_numpy_array': {'copy': False},
    'time_series.TimeSeries.from_npy_file': {},
    'pipeline.harmonic_testing.hdiag': {'denom_max': 100},
}
# flag -> (type, default, required, choices, nargs, action)
RSEEK = {
    '--format': ('str', None, True, ('presto', 'sigproc'), None, None), '-f': '--format',
    '--Pmin': ('float', 1.0, False, None, None, None),
    '--Pmax': ('float', 10.0, False, None, None, None),
    '--bmin': ('int', 240, False, None, None, None),
    '--bmax': ('int', 260, False, None, None, None),
    '--smin': ('float', 7.0, False, None, None, None),
    '--wtsp': ('float', 1.5, False, None, None, None),
    '--rmed_width': ('float', 4.0, False, None, None, None),
    '--rmed_minpts': ('int', 101, False, None, None, None),
    '--clrad': ('float', 0.2, False, None, None, None),
    'fname': ('str', None, False, None, None, None),
}
RFFA = {
    '--config': ('str', None, True, None, None, None), '-c': '--config',
    '--outdir': ('dir', 'cwd', False, None, None, None), '-o': '--outdir',
    '--logfile': ('str', None, False, None, None, None), '-f': '--logfile',
    '--log-level': ('str', 'DEBUG', False, ('DEBUG', 'INFO', 'WARNING'), None, None),
    '--log-timings': ('flag', False, False, None, None, 'store_true'),
    'files': ('str', None, False, None, '+', None),
}


def documented(prog):
    """functions and methods with a documented parameter section"""
    out = {}

    def visit(prefix, body):
        for n in body:
            if isinstance(n, ast.ClassDef):
                visit(prefix + '.' + n.name, n.body)
            elif isinstance(n, ast.FunctionDef):
                if re.search(r'Parameters\s*\n\s*-+', ast.get_docstring(n) or ''):
                    out[prefix + '.' + n.name] = n
    for mn, m in prog.modules.items():
        if mn != SPEC and not mn.endswith('_version'):
            visit(mn, m.tree.body)
    return out


def footprint(r):
    """every term that can carry the influence of a parameter"""
    d = lambda x: r.ev.deref(x, r.state)
    out = [r.ret, r.raise_cond()] + [d(v) for v in r.state.heap.values()]
    for e in r.events:
        if e.kind == 'log':
            continue
        out.append(e.guard)
        out += [n for i, n in e.loops if n is not None]
        for v in e.data.values():
            vs = v.values() if isinstance(v, dict) else v if isinstance(v, (tuple, list)) else [v]
            out += [d(x) for x in vs if isinstance(x, t.T)]
    return out


def const_of(x):
    if x is t.NONE:
        return None
    if x is t.TRUE or x is t.FALSE:
        return x is t.TRUE
    if x.op == 'const':
        return x.a[0]
    if x.op == 'num':
        return float(x.a[0])
    return x


class Options:
    def __init__(self, s, qual):
        self.s = s
        self.r = s.run(qual)
        self.opts = {}         # flag -> dict
        self.other = []
        if self.r is None:
            return
        for e in self.r.events:
            if e.kind != 'call' or not str(e.data.get('name')).endswith('.add_argument'):
                if e.kind == 'call' and str(e.data.get('name')).split('.')[-1] in ('set_defaults', 'add_subparsers', 'parse_known_args'):
                    self.other.append(e)
                continue
            flags = [const_of(x) for x in e.data['args']]
            kw = {k: self.r.ev.deref(v, self.r.state) for k, v in dict(e.data['kwargs']).items()}
            if not all(isinstance(f, str) for f in flags) or e.loops or '**' in kw:
                self.other.append(e)
                continue
            long_ = next((f for f in flags if f.startswith('--')), flags[0])
            dest = const_of(kw['dest']) if 'dest' in kw else long_.lstrip('-').replace('-', '_')
            o = {'flags': flags, 'dest': dest, 'kw': kw, 'where': e.where, 'guard': e.guard}
            for f in flags:
                self.opts[f] = o


def choices_of(x, r):
    x = r.ev.deref(x, r.state)
    n = t.length(x)
    if n.op != 'num':
        return x
    return tuple(sorted(str(const_of(t.item(x, t.num(i)))) for i in range(int(n.a[0]))))


def check_parser(rep, s, prog, qual, table):
    """the option table; returns {dest used: canonical name} or None"""
    rule = 'the program accepts the documented options'
    where = s.where(qual)
    o = Options(s, qual)
    if o.r is None or o.other:
        rep.undecided(rule, prog, where, s.last_error if o.r is None else 'option defined in an unmodelled way at %s' % o.other[0].where)
        return None
    r = o.r
    names = {}
    for flag, want in table.items():
        subj = '%s %s' % (prog, flag)
        x = o.opts.get(flag)
        if x is None:
            rep.violated(rule, subj, where, 'no such option')
            continue
        if isinstance(want, str):
            rep.check(o.opts.get(want) is x, rule, subj, x['where'], 'not the same option as %s' % want)
            continue
        names[x['dest']] = flag.lstrip('-').replace('-', '_')
        ty, default, required, choices, nargs, action = want
        kw = x['kw']
        bad = []
        act = const_of(kw.get('action', t.NONE))
        if ty == 'flag':
            if act != 'store_true':
                bad.append('action %s' % act)
            if 'default' in kw and const_of(kw['default']) is not False:
                bad.append('default %s' % t.show(kw['default']))
        else:
            if act not in (None, 'store'):
                bad.append('action %s' % act)
            f = kw.get('type')
            if ty == 'dir':
                v = t.mk('param', '$path')
                try:
                    if f is not None:
                        f = t.open_binder(f, 2, v) if f.op == 'lambda' else f
                    if f is None or f.op == 'glob':
                        pass
                    elif f is not v:
                        fv = r.ev.deref(f, r.state)
                        while fv.op == 'call' and fv.a[0] in ('os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'os.path.expanduser', 'str') and len(fv.a[1]) == 1:
                            fv = fv.a[1][0]
                        if fv is not v:
                            bad.append('type gives %s' % t.show(fv))
                except Unsupported:
                    pass
            else:
                got = 'str' if f is None else f.a[0] if f.op == 'glob' else t.show(f)
                if got != ty:
                    if f is not None and f.op != 'glob':
                        rep.undecided(rule, subj, x['where'], 'type %s' % got)
                        continue
                    bad.append('type %s' % got)
            d = kw.get('default', t.NONE)
            if default == 'cwd':
                if not (d.op == 'call' and d.a[0] == 'os.getcwd') and const_of(d) not in ('.', './'):
                    bad.append('default %s' % t.show(d))
            else:
                c = const_of(d)
                if isinstance(c, t.T):
                    rep.undecided(rule, subj, x['where'], 'default %s' % t.show(d)[:80])
                    continue
                if isinstance(c, str) and ty in ('int', 'float'):       # argparse converts string defaults
                    try:
                        c = float(c)
                    except ValueError:
                        pass
                if c != default and not (isinstance(c, (int, float)) and isinstance(default, (int, float)) and float(c) == float(default)):
                    bad.append('default %s' % t.show(d))
            req = const_of(kw.get('required', t.FALSE))
            if bool(req) != required:
                bad.append('required %s' % req)
            ch = choices_of(kw['choices'], r) if 'choices' in kw else None
            if isinstance(ch, t.T):
                rep.undecided(rule, subj, x['where'], 'choices %s' % t.show(ch)[:80])
                continue
            if ch != (tuple(sorted(choices)) if choices else None):
                bad.append('choices %s' % (ch,))
            na = const_of(kw.get('nargs', t.NONE))
            if na != nargs:
                bad.append('nargs %s' % na)
        if x['guard'] is not t.TRUE:
            bad.append('only when %s' % t.show(x['guard']))
        rep.check(not bad, rule, subj, x['where'], '; '.join(bad))
    return names


def rename_args(x, names):
    a = t.mk('param', 'args')
    m = {t.attr(a, d): t.attr(a, c) for d, c in names.items() if d != c}
    return t.subst(x, m) if m else x


def run(rep):
    s = Suite(rep, SRC)
    docs = documented(s.prog)

    # ------------------------------------------------------------ influence
    rule = 'every documented parameter influences the outcome'
    for q, n in sorted(docs.items()):
        names = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs if a.arg not in ('self', 'cls')]
        r = s.run(q, opaque=tuple(x for x in docs if x != q))
        short = q.replace('riptide.', '', 1)
        if r is None:
            rep.undecided(rule, short, s.where(q), s.last_error)
            continue
        fp = footprint(r)
        for k in names:
            p = r.params.get(k, t.mk('param', k))
            if not any(t.contains(x, p) for x in fp):
                # a parameter that decides only which of two equal arrays (the given one or a copy) is kept
                r2 = s.run(q, opaque=tuple(x for x in docs if x != q), flags=dict(keep_copies=True))
                if r2 is not None:
                    fp = fp + footprint(r2)
            rep.check(any(t.contains(x, p) for x in fp), rule, '%s: %s' % (short, k), s.where(q),
                      'the parameter is not used', key='%s: %s unused' % (short, k))

    # ------------------------------------------------------------ defaults
    rule = 'defaults are the documented ones'
    for q, want in DEFAULTS.items():
        full = 'riptide.' + q
        names, n = s.argnames(full)
        a = n.args
        pos = a.posonlyargs + a.args
        have = {x.arg: d for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults)}
        have.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for k, v in want.items():
            subj = '%s: %s' % (q, k)
            if k not in have:
                rep.violated(rule, subj, s.where(full), 'the parameter has no default' if k in names else 'no such parameter')
                continue
            try:
                got = ast.literal_eval(have[k])
            except ValueError:
                rep.undecided(rule, subj, s.where(full), 'default %s' % ast.unparse(have[k]))
                continue
            ok = got == v and isinstance(got, bool) == isinstance(v, bool)
            rep.check(ok, rule, subj, s.where(full), 'found %r, documented %r' % (got, v))

    # ------------------------------------------------------------ roles
    rule = 'parameters have their documented role'
    s.fn('riptide.libffa.generate_signal', ['signal', 'signal_b'], rule=rule, parts=('ret',))
    s.fn('riptide.libffa.boxcar_snr', ['boxcar', 'boxcar_b'], rule=rule, parts=('ret',))
    s.fn('riptide.libffa.ffa2', ['two'], rule=rule, parts=('ret',))
    s.fn('riptide.libffa.ffa1', ['one'], rule=rule, parts=('ret',))
    s.fn('riptide.libffa.ffaprd', ['prd'], rule=rule, parts=('ret',), opaque=('riptide.libffa.ffafreq',))
    s.fn('riptide.libffa.downsample', ['down'], rule=rule, parts=('ret',))
    op = ('riptide.libffa.generate_signal',)
    a, b = s.run(SPEC + '.generated', opaque=op), s.run(SPEC + '.generated_ref', opaque=op)
    where = s.where('riptide.time_series.TimeSeries.generate')
    if a is None:
        rep.undecided(rule, 'TimeSeries.generate', where, s.last_error)
    else:
        for f in ('data', 'tsamp', 'metadata'):
            x, y = [r.ev.deref(r.ev.getattr(r.raw, f, r.state, None), r.state) for r in (a, b)]
            s.judge(rule, 'TimeSeries.generate: %s' % f, x, [y], where)

    # ------------------------------------------------------------ rseek
    q = 'riptide.apps.rseek'
    names = check_parser(rep, s, 'rseek', q + '.get_parser', RSEEK)
    rule = 'options reach the stage they document'
    where = s.where(q + '.run_program')
    op = ('riptide.search.ffa_search', 'riptide.peak_detection.find_peaks', 'riptide.clustering.cluster1d') + tuple(
        pipe.TS + m for m in ('.from_sigproc', '.from_presto_inf'))
    first = s.argnames(q + '.run_program')[0][0]
    A = t.mk('param', 'args')
    act, ref = s.run(q + '.run_program', opaque=op, fixed={first: A}), s.run(SPEC + '.rseek', opaque=op)
    if names is not None:
        if act is None:
            rep.undecided(rule, 'rseek', where, s.last_error)
        else:
            R = lambda x: rename_args(x, names)

            for nm in op[:3]:
                x = [R(e.data['value']) for e in act.events if e.kind == 'call' and e.data['name'] == nm]
                y = [e.data['value'] for e in ref.events if e.kind == 'call' and e.data['name'] == nm]
                if len(x) == len(y) == 1:
                    s.judge(rule, 'rseek: %s' % nm.rsplit('.', 1)[1], x[0], [y[0]], where)
                elif not x:
                    rep.violated(rule, 'rseek: %s' % nm.rsplit('.', 1)[1], where, 'not called')
                else:
                    rep.undecided(rule, 'rseek: %s' % nm.rsplit('.', 1)[1], where, 'called %d times' % len(x))
            s.judge(rule, 'rseek: peak table', R(s.value(act)), [s.value(ref)], where)
            # the table is printed
            prints = [e for e in act.events if e.kind == 'call' and e.data['name'] in ('print', 'sys.stdout.write', '.write')]
            shown = [e for e in prints if any(y.op == 'mcall' and y.a[0] in ('to_string', 'to_markdown') or y.op == 'mcall' and y.a[0] == 'drop'
                                              for x in e.data['args'] for y in t.subterms(R(x)))]
            rep.check(bool(shown), rule, 'rseek: the table is printed', where, 'no output of the table')
    check_main(rep, s, q)

    # ------------------------------------------------------------ pipeline program
    q = 'riptide.pipeline.pipeline'
    names = check_parser(rep, s, 'rffa', q + '.get_parser', RFFA)
    where = s.where(q + '.run_program')
    op = (pipe.PIPE + '.process', pipe.PIPE + '.from_yaml_config')
    rt = {pipe.PIPE + '.from_yaml_config': pipe.PIPE}
    first = s.argnames(q + '.run_program')[0][0]
    kw = dict(opaque=op, ret_types=rt)
    act = s.run(q + '.run_program', fixed={first: A}, **kw)
    if names is not None:
        if act is None:
            rep.undecided(rule, 'rffa', where, s.last_error)
        else:
            R = lambda x: rename_args(x, names)
            proc = lambda e: R(e.data['value']) if e.kind == 'call' and str(e.data['name']).endswith('.process') else None
            s.effects(rule, 'rffa: processing of the input files', act, [s.run(SPEC + '.rffa', **kw), s.run(SPEC + '.rffa_kw', **kw)], proc, where)
            ref = s.run(SPEC + '.level', **kw)

            def conf(e, which):
                if e.kind == 'call' and e.data['name'] == 'logging.basicConfig':
                    v = dict(e.data['kwargs']).get(which)
                    return R(act.ev.deref(v, act.state)) if v is not None else t.mk('const', 'absent')

            def conf_ref(which):
                for e in ref.events:
                    if e.kind == 'call' and e.data['name'] == 'logging.basicConfig':
                        return ref.ev.deref(dict(e.data['kwargs'])[which], ref.state)
            es = [e for e in act.events if e.kind == 'call' and e.data['name'] == 'logging.basicConfig']
            if len(es) == 1:
                for which in ('level', 'handlers'):
                    s.judge(rule, 'rffa: log %s' % which, conf(es[0], which), [conf_ref(which)], es[0].where)
            else:
                rep.undecided(rule, 'rffa: logging', where, '%d calls of basicConfig' % len(es))
            # timing log level
            lv = [e for e in act.events if e.kind == 'call' and e.data['name'] == '.setLevel' and e.data['recv'].op == 'call'
                  and e.data['recv'].a[0] == 'logging.getLogger' and e.data['recv'].a[1] and const_of(e.data['recv'].a[1][0]) == 'riptide.timing']
            flag = t.truth(t.attr(A, 'log_timings'))
            if not lv:
                rep.violated(rule, 'rffa: log timings', where, 'the level of the timing log is not set')
            for val, want in ((flag, 'DEBUG'), (t.lnot(flag), 'WARNING')):
                got = None
                for e in lv:
                    g = t.assume(R(e.guard), val)
                    if g is t.TRUE:
                        got = t.assume(R(e.data['args'][0]), val)
                    elif g is not t.FALSE:
                        got = t.mk('unknown', g)
                if got is None:
                    continue
                ok = {'DEBUG': ('DEBUG', 10.0), 'WARNING': ('WARNING', 30.0, 'ERROR', 'CRITICAL')}[want]
                c = const_of(got)
                if c == t.mk('glob', 'logging.' + want):
                    c = want
                if isinstance(c, t.T):
                    rep.undecided(rule, 'rffa: log timings %s' % want, lv[0].where, t.show(c)[:100])
                else:
                    rep.check(c in ok, rule, 'rffa: log timings %s' % want, lv[0].where, 'level %s' % c)
    check_main(rep, s, q)
    a, b, c = [s.run(SPEC + n, opaque=(pipe.PIPE,)) for n in ('.called_yaml', '.from_yaml', '.from_yaml_b')]
    where = s.where(pipe.PIPE + '.from_yaml_config')
    if a is None:
        rep.undecided(rule, 'Pipeline.from_yaml_config', where, s.last_error)
    else:
        s.judge(rule, 'Pipeline.from_yaml_config', s.value(a), [s.value(b), s.value(c)], where)


def check_main(rep, s, q):
    rule = 'options reach the stage they document'
    where = s.where(q + '.main')
    op = (q + '.get_parser', q + '.run_program')
    r = s.run(q + '.main', opaque=op)
    subj = '%s.main' % q.replace('riptide.', '', 1)
    if r is None:
        return rep.undecided(rule, subj, where, s.last_error)
    es = [e for e in r.events if e.kind == 'call' and e.data['name'] == op[1]]
    ok = [e for e in es if e.guard is t.TRUE and any(y.op == 'mcall' and y.a[0] == 'parse_args' for y in t.subterms(e.data['value']))]
    rep.check(bool(ok), rule, subj, where, 'the parsed command line does not reach run_program')
