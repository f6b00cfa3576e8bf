"""Shared model of periodogram peak detection."""
from .. import terms as t
from ..spec import SPEC, Suite

SRC = '''
import numpy as np
from math import ceil
from riptide.clustering import cluster1d
from riptide.peak_detection import Peak, find_peaks

def ref(pgram, smin, segwidth, nstd, minseg, polydeg, clrad):
    f, T = pgram.freqs, pgram.tobs
    peaks, polycos = [], {}
    for iw, width in enumerate(pgram.widths):
        s = pgram.snrs[:, iw].astype(float)
        m = ceil(abs(f[-1] - f[0]) / (segwidth / T))
        p = len(f) // m
        fc = np.median(f[:m * p].reshape(m, p), axis=1)
        g = s[:m * p].reshape(m, p)
        s25, smed, s75 = np.percentile(g, (25, 50, 75), axis=1)
        if len(fc) >= minseg:
            co = np.polyfit(np.log(fc), smed + nstd * (s75 - s25) / 1.349, polydeg)
        else:
            co = [smin]
        ind = np.where((s > np.polyval(co, np.log(f))) & (s > smin))[0]
        for cl in cluster1d(f[ind], clrad / T):
            ix = ind[cl]
            ip = ix[s[ix].argmax()]
            peaks.append(Peak(freq=f[ip], period=1.0 / f[ip], width=width, ducy=width / pgram.foldbins[ip],
                              iw=iw, ip=ip, snr=s[ip], dm=pgram.metadata['dm']))
        polycos[iw] = co
    return sorted(peaks, key=lambda p: p.snr, reverse=True), polycos

def entry(pgram, ip, iw):
    f, w = pgram.freqs[ip], pgram.widths[iw]
    return {'freq': [f, 1 / pgram.periods[ip]], 'period': [1.0 / f, pgram.periods[ip]], 'width': [w],
            'ducy': [w / pgram.foldbins[ip]],
            'snr': [pgram.snrs[:, iw][ip], pgram.snrs[ip, iw], pgram.snrs[ip][iw]], 'dm': [pgram.metadata['dm']]}
'''
PEAK = 'riptide.peak_detection.Peak'
Q = 'riptide.peak_detection.find_peaks'
OPAQUE = ('riptide.clustering.cluster1d',)


def load(rep):
    s = Suite(rep, SRC)
    # element types of the periodogram arrays
    for n in ('widths', 'foldbins'):
        t.INT_ARRAYS.add(t.attr(t.mk('param', 'pgram'), n))
    act, (ref,) = s.pair(Q, 'ref', opaque=OPAQUE, types={'pgram': 'riptide.periodogram.Periodogram'})
    return s, act, ref


def split(r, s):
    es = t.seq_elems(s.value(r))
    if es is None or len(es) != 2:
        return None, None
    return es


def unsort(x):
    return x.a[0] if x.op == 'sorted' else x


def opened(x, out):
    """every Peak construction, with the binders around it opened"""
    seen = set()

    def go(y):
        if y in seen:
            return
        seen.add(y)
        if y.op == 'rec' and y.a[0] == PEAK:
            out.append(y)
        if y.op in t.BINDERS and y.op != 'loop':
            i, outer, inner = t.open_node(y)
            for z in outer:
                go(z) if isinstance(z, t.T) else [go(w) for w in z if isinstance(w, t.T)]
            for z in inner:
                go(z)
            return
        for z in t._walk_children(y.a):
            go(z)
    go(x)
    return out
