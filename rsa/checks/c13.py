"""C13: candidate filters keep exactly the clusters the configuration asks for."""
from ..spec import SPEC, Suite
from . import pipe

EXPLANATION = (
    'The clusters that remain after Pipeline.apply_candidate_filters, as a function of an arbitrary cluster list and of the four '
    'settings, are reduced to a normal form (a filter predicate per cluster, then a cut of the sorted list) and compared with the '
    'documented filters; the order in which they are kept is ignored.')
MINIMUM = 2

SRC = '''
def drive(self):
    self.apply_candidate_filters()
    return sorted(self.clusters_filtered, key=lambda c: c.centre.snr, reverse=True)

def ref(self):
    p = self.config['candidate_filters']
    out = self.clusters
    if p['dm_min'] is not None:
        out = [c for c in out if c.centre.dm >= p['dm_min']]
    if p['snr_min'] is not None:
        out = [c for c in out if c.centre.snr >= p['snr_min']]
    if p['remove_harmonics']:
        out = [c for c in out if not c.is_harmonic]
    out = sorted(out, key=lambda c: c.centre.snr, reverse=True)
    if p['max_number']:
        out = out[:p['max_number']]
    return out

def ref_notnone(self):
    p = self.config['candidate_filters']
    out = self.clusters
    if p['dm_min'] is not None:
        out = [c for c in out if c.centre.dm >= p['dm_min']]
    if p['snr_min'] is not None:
        out = [c for c in out if c.centre.snr >= p['snr_min']]
    if p['remove_harmonics']:
        out = [c for c in out if not c.is_harmonic]
    out = sorted(out, key=lambda c: c.centre.snr, reverse=True)
    if p['max_number'] is not None:
        out = out[:p['max_number']]
    return out
'''


def run(rep):
    s = Suite(rep, SRC)
    where = s.where(pipe.PIPE + '.apply_candidate_filters')
    a = pipe.refstage(s, 'drive')
    if a is None:
        rep.undecided('filters', 'Pipeline.apply_candidate_filters', where, s.last_error)
        return
    refs = [pipe.refstage(s, n) for n in ('ref', 'ref_notnone')]
    s.judge('the clusters satisfying every filter that is set, cut to the brightest', 'Pipeline.apply_candidate_filters: clusters kept',
            s.value(a), [s.value(r) for r in refs], where)
    s.judge('no refusal', 'Pipeline.apply_candidate_filters: refusals', a.raise_cond(), [r.raise_cond() for r in refs], where)
