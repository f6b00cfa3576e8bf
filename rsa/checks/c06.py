"""C06: a time series stays self-consistent under every operation."""
from .. import lib
from .. import terms as t
from ..spec import SPEC, Suite

EXPLANATION = (
    'Abstract interpretation over the value-flow graph: a time series is created through every public constructor, then '
    'every in-place operation (and every pair of them) is applied, and on the resulting symbolic object three facts are '
    'required: the element type of its data is float32 (element type inference over the value graph: dtype arguments, '
    'in-place array operations, native results), its length is number of samples x sampling time, and the tobs entry of '
    'its metadata is the same normal form as its length. The pairs make the argument inductive over sequences: the state '
    'after one operation is again a constructed state.')
MINIMUM = 30

CREATE = {
    'init': 'def {n}(data, tsamp, md{a}):\n    ts = TimeSeries(data, tsamp, metadata=md)\n',
    'init_nomd': 'def {n}(data, tsamp{a}):\n    ts = TimeSeries(data, tsamp)\n',
    'init_copy': 'def {n}(data, tsamp, md{a}):\n    ts = TimeSeries(data, tsamp, metadata=md, copy=True)\n',
    'from_numpy_array': 'def {n}(data, tsamp, copy{a}):\n    ts = TimeSeries.from_numpy_array(data, tsamp, copy=copy)\n',
    'from_binary': 'def {n}(fname, tsamp, dtype{a}):\n    ts = TimeSeries.from_binary(fname, tsamp, dtype=dtype)\n',
    'from_npy_file': 'def {n}(fname, tsamp{a}):\n    ts = TimeSeries.from_npy_file(fname, tsamp)\n',
    'from_dict': 'def {n}(items{a}):\n    ts = TimeSeries.from_dict(items)\n',
    'generate': 'def {n}(length, tsamp, period{a}):\n    ts = TimeSeries.generate(length, tsamp, period)\n',
    'from_presto_inf': 'def {n}(fname{a}):\n    ts = TimeSeries.from_presto_inf(fname)\n',
    'from_sigproc': 'def {n}(fname{a}):\n    ts = TimeSeries.from_sigproc(fname)\n',
}
OPS = {
    'normalise': 'ts.normalise(inplace=True)',
    'deredden': 'ts.deredden(w{i}, minpts=m{i}, inplace=True)',
    'downsample': 'ts.downsample(f{i}, inplace=True)',
}
COPY = {
    'normalise': 'ts = ts.normalise()',
    'deredden': 'ts = ts.deredden(w{i}, minpts=m{i})',
    'downsample': 'ts = ts.downsample(f{i})',
    'copy': 'ts = ts.copy()',
}
RET = '    return ts.data, ts.metadata["tobs"], ts.length, ts.nsamp * ts.tsamp, ts.tobs\n'


def run(rep):
    progs = []
    src = 'from riptide.time_series import TimeSeries\n'

    def add(name, create, ops):
        nonlocal src
        args = ''.join(', w%d, m%d, f%d' % (i, i, i) for i in range(len(ops)))
        src += CREATE[create].format(n=name, a=args)
        for i, o in enumerate(ops):
            src += '    ' + o.format(i=i) + '\n'
        src += RET
        progs.append((name, create, ops))
    for c in CREATE:
        add('c_' + c, c, [])
    for k, o in OPS.items():
        add('i_' + k, 'init', [o])
        add('x_' + k, 'init_nomd', [o])
    for k, o in COPY.items():
        add('n_' + k, 'init', [o])
    for k1, o1 in OPS.items():
        for k2, o2 in OPS.items():
            add('p_%s_%s' % (k1, k2), 'init', [o1, o2])
    if rep.tier == 'thorough':
        for k1, o1 in OPS.items():
            for k2, o2 in OPS.items():
                for k3, o3 in {**OPS, **COPY}.items():
                    add('t_%s_%s_%s_%s' % (k1, k2, k3, 'n' if o3 in COPY.values() else 'i'), 'init', [o1, o2, o3])
    s = Suite(rep, src)
    s.node('riptide.time_series.TimeSeries')
    for name, create, ops in progs:
        subj = create + (': ' + ' ; '.join(o.split('(')[0].replace('ts = ', 'copying ').replace('ts.', '') for o in ops) if ops else '')
        big = create in ('from_presto_inf', 'from_sigproc')
        opaque = ()
        if big:
            opaque = ('riptide.reading.presto.PrestoInf', 'riptide.reading.sigproc.SigprocHeader', 'riptide.metadata.Metadata.from_presto_inf',
                      'riptide.metadata.Metadata.from_sigproc', 'riptide.reading.presto.PrestoInf.load_data')
        r = s.run(SPEC + '.' + name, opaque=opaque)
        where = s.where('riptide.time_series.TimeSeries')
        if r is None:
            rep.undecided('time series invariant', subj, where, s.last_error)
            continue
        es = t.seq_elems(s.value(r))
        if es is None:
            rep.undecided('time series invariant', subj, where, 'joined result')
            continue
        data, tobs, length, nt, tobs2 = es
        d = lib.dtype_of(data)
        if d is lib.F32:
            rep.holds('samples are 32-bit floats', subj, where)
        elif d is not None:
            rep.violated('samples are 32-bit floats', subj, where, 'element type is %s: %s' % (t.show(d), t.show(data)))
        elif data.op == 'poly' and any(x.op == 'call' and (x.a[0] == 'np.interp' or any(k == 'dtype' for k, v in x.a[2]))
                                       for x in t.subterms(data)):
            rep.violated('samples are 32-bit floats', subj, where,
                         'result of a double precision operation stored without conversion: %s' % t.show(data))
        elif data.op == 'param' or (data.op == 'call' and data.a[0] in ('np.load', 'np.fromfile')):
            rep.violated('samples are 32-bit floats', subj, where, 'data stored as given: %s' % t.show(data))
        else:
            rep.undecided('samples are 32-bit floats', subj, where, t.show(data))
        s.judge('length = nsamp x tsamp', subj + ': length', length, [nt], where)
        s.judge('tobs property = length', subj + ': tobs property', tobs2, [nt], where)
        s.judge('recorded duration = length', subj + ': metadata tobs', tobs, [nt], where)
