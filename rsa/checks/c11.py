"""C11: one-dimensional clustering partitions its input."""
from ..spec import Suite

EXPLANATION = (
    'The result of riptide.clustering.cluster1d is reduced to its value-flow normal form and compared, for the unsorted '
    'and the already sorted case, with the definition "consecutive slices of the sorting permutation, cut exactly where '
    'two neighbours in sorted order differ by more than r"; consecutive slices between 0, the cuts and len(x) cover every '
    'position once whatever the data, so equality with the definition is the partition property.')
MINIMUM = 3

SRC = '''
import numpy as np

def sorted_in(x, r, already_sorted):
    if len(x) == 0:
        return []
    order = np.arange(len(x)) if already_sorted else x.argsort()
    d = abs(np.diff(x)) if already_sorted else np.diff(x[order])
    cuts = np.flatnonzero(d > r)
    if len(cuts) == 0:
        return [order]
    b = np.concatenate(([0], cuts + 1, [len(x)]))
    return [order[s:e] for s, e in zip(b[:-1], b[1:])]

def sorted_in_nospecial(x, r, already_sorted):
    if len(x) == 0:
        return []
    order = np.arange(len(x)) if already_sorted else x.argsort()
    d = abs(np.diff(x)) if already_sorted else np.diff(x[order])
    cuts = np.flatnonzero(d > r)
    b = np.concatenate(([0], cuts + 1, [len(x)]))
    return [order[s:e] for s, e in zip(b[:-1], b[1:])]
'''


def run(rep):
    from .. import terms as t
    s = Suite(rep, SRC)
    q = 'riptide.clustering.cluster1d'
    for nm, val in (('unsorted input', t.FALSE), ('already sorted input', t.TRUE)):
        names, _ = s.argnames(q)
        act = s.run(q, fixed={names[0]: t.mk('param', 'x'), names[1]: t.mk('param', 'r'), names[2]: val})
        specs = [s.run('riptide.zzspec.' + n, fixed={'already_sorted': val}) for n in ('sorted_in', 'sorted_in_nospecial')]
        if act is None:
            rep.undecided('partition', nm, s.where(q), s.last_error)
            continue
        s.judge('clusters are the maximal runs of the sorting permutation with gaps <= r', nm, s.value(act),
                [s.value(x) for x in specs], s.where(q))
        s.judge('no input is refused', nm + ': refusals', act.raise_cond(), [x.raise_cond() for x in specs], s.where(q))
