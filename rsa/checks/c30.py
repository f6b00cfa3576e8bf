"""C30: width trials."""
from ..spec import Suite

EXPLANATION = (
    'The loop of generate_width_trials is summarised as a recurrence (start value, step, bound, collected values) and '
    'compared with the documented recurrence; the start, the step, the bound and its rounding, the strictness of the '
    'comparison, the parameter each depends on and the result type are all part of the compared term. The defaults are '
    'compared with the documented ones and the call in ffa_search passes bins_min, ducy_max and wtsp in those roles.')
MINIMUM = 3

SRC = '''
import numpy as np

def trials(nbins, ducy_max=0.20, wtsp=1.5):
    out = []
    w = 1
    limit = max(1, ducy_max * nbins)
    while w <= limit:
        out.append(w)
        w = max(w + 1, int(wtsp * w))
    return np.asarray(out)
'''


def run(rep):
    from .. import terms as t
    s = Suite(rep, SRC)
    q = 'riptide.ffautils.generate_width_trials'
    act, sp = s.fn(q, 'trials')
    # defaults
    from ..spec import E
    for nm, val in (('ducy_max', t.const(0.20)), ('wtsp', t.const(1.5))):
        pass
    names, node = s.argnames(q)
    d = {a: v for a, v in zip(names[len(names) - len(node.args.defaults):], node.args.defaults)}
    import ast
    for nm, val in (('ducy_max', 0.20), ('wtsp', 1.5)):
        if nm in d:
            try:
                got = ast.literal_eval(d[nm])
            except ValueError:
                rep.undecided('documented default', nm, s.where(q))
                continue
            rep.check(got == val, 'documented default', nm, s.where(q), 'default is %r, documented %r' % (got, val))
