"""C12: harmonic flagging always points to a brighter true fundamental."""
from .. import terms as t
from ..spec import SPEC, Suite
from . import pipe

EXPLANATION = (
    'The effects of Pipeline.flag_harmonics on the clusters (rank, parent, ratio) and its pairwise tests are summarised as guarded '
    'effects quantified over the loops that contain them, and compared with those of the reference procedure: ranks from 0 in order '
    'of decreasing S/N, each pair of unflagged clusters tested once with the brighter one first, parent and ratio set together '
    'from the positive result of that same test. The pairwise test is kept symbolic.')
MINIMUM = 5

SRC = '''
import itertools
from riptide.pipeline.harmonic_testing import htest

def ref(self):
    order = sorted(self.clusters, key=lambda c: c.centre.snr, reverse=True)
    tobs = self.dmiter.tobs_median()
    kw = self.config['harmonic_flagging']
    for rank, cl in enumerate(order):
        cl.rank = rank
    for F, H in itertools.combinations(order, 2):
        if F.is_harmonic or H.is_harmonic:
            continue
        related, fraction = htest(F.centre, H.centre, tobs, self.dmiter.fmin, self.dmiter.fmax, **kw)
        if related:
            H.parent_fundamental = F
            H.hfrac = fraction

def fainter_first(self):
    order = sorted(self.clusters, key=lambda c: c.centre.snr, reverse=True)
    tobs = self.dmiter.tobs_median()
    kw = self.config['harmonic_flagging']
    for rank, cl in enumerate(order):
        cl.rank = rank
    for j in range(len(order)):
        for i in range(j):
            F, H = order[i], order[j]
            if F.is_harmonic or H.is_harmonic:
                continue
            related, fraction = htest(F.centre, H.centre, tobs, self.dmiter.fmin, self.dmiter.fmax, **kw)
            if related:
                H.parent_fundamental = F
                H.hfrac = fraction

def fainter_first_from1(self):
    order = sorted(self.clusters, key=lambda c: c.centre.snr, reverse=True)
    tobs = self.dmiter.tobs_median()
    kw = self.config['harmonic_flagging']
    for rank, cl in enumerate(order):
        cl.rank = rank
    for j in range(1, len(order)):
        for i in range(j):
            F, H = order[i], order[j]
            if F.is_harmonic or H.is_harmonic:
                continue
            related, fraction = htest(F.centre, H.centre, tobs, self.dmiter.fmin, self.dmiter.fmax, **kw)
            if related:
                H.parent_fundamental = F
                H.hfrac = fraction

def flagged(cl):
    return cl.is_harmonic

def flagged_ref(cl):
    return cl.parent_fundamental is not None

def centre(cl):
    return cl.centre

def centre_ref(cl):
    return max(cl, key=lambda p: p.snr)
'''
HT = 'riptide.pipeline.harmonic_testing.htest'


def run(rep):
    s = Suite(rep, SRC)
    where = s.where(pipe.PIPE + '.flag_harmonics')
    r = pipe.stage(s, 'flag_harmonics')
    if r is None:
        rep.undecided('flagging', 'Pipeline.flag_harmonics', where, s.last_error)
    else:
        refs = [pipe.refstage(s, n) for n in ('ref', 'fainter_first', 'fainter_first_from1')]
        # loops that skip the pairs of a flagged fundamental altogether are the same pairs
        for name, rule in (('rank', 'ranks count from 0 in order of decreasing S/N'),
                           ('parent_fundamental', 'parent set only by a positive test against a brighter unflagged cluster'),
                           ('hfrac', 'ratio set with the parent, from the same test')):
            s.effects(rule, 'Pipeline.flag_harmonics: ' + name, r, refs,
                      lambda e: t.seq([e.data['base'], e.data['value']]) if e.kind == 'setattr' and e.data['name'] == name else None, where)
        s.effects('each pair of unflagged clusters tested once, brighter first', 'Pipeline.flag_harmonics: tests', r, refs,
                  lambda e: e.data['value'] if e.kind == 'call' and e.data['name'] == HT else None, where)
        s.judge('no refusal', 'Pipeline.flag_harmonics: refusals', r.raise_cond(), [t.FALSE], where)
    for q, a, b in ((pipe.PC + '.is_harmonic', 'flagged', 'flagged_ref'), (pipe.PC + '.centre', 'centre', 'centre_ref')):
        x = s.run(SPEC + '.' + a, types={'cl': pipe.PC})
        y = s.run(SPEC + '.' + b, types={'cl': pipe.PC})
        if x is None:
            rep.undecided('definition', q, s.where(pipe.PC), s.last_error)
        else:
            s.judge('definition', q.replace('riptide.', '', 1), x.ret, [y.ret], s.where(pipe.PC))
