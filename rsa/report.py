"""Collection of rule instances, verdict, evidence file and exit status of one check."""
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnchorLost(Exception):
    """a public construct the property is anchored to does not exist (the analysis is not about this code any more)"""


class Report:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.items = []         # dict(rule, subject, verdict, where, detail)
        self.consulted = set()
        self.assumptions = []
        self.known_keys = load_known(pid)
        self.digest = None
        self.vocab = set()

    def _add(self, verdict, rule, subject, where='', detail=''):
        self.items.append({'rule': rule, 'subject': subject, 'verdict': verdict, 'where': str(where).replace('/repo/', ''),
                           'detail': detail})

    def holds(self, rule, subject, where='', detail=''):
        self._add('holds', rule, subject, where, detail)

    def violated(self, rule, subject, where='', detail='', key=None):
        k = key or subject
        if k in self.known_keys:
            self._add('known', rule, subject, where, self.known_keys[k])
        else:
            self._add('violated', rule, subject, where, detail)

    def undecided(self, rule, subject, where='', detail=''):
        self._add('undecided', rule, subject, where, detail)

    def check(self, ok, rule, subject, where='', detail='', key=None):
        if ok:
            self.holds(rule, subject, where, detail if isinstance(detail, str) and detail.startswith('=') else '')
        else:
            self.violated(rule, subject, where, detail, key)
        return ok

    def finish(self, explanation, minimum=1):
        by = {}
        for it in self.items:
            by[it['verdict']] = by.get(it['verdict'], 0) + 1
        bad = [it for it in self.items if it['verdict'] == 'violated']
        d = os.environ.get('RSA_EVIDENCE') or os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': explanation,
                'obligations': len(self.items), 'discharged': by.get('holds', 0),
                'violated': len(bad), 'undecided': by.get('undecided', 0), 'known': by.get('known', 0),
                'functions_analysed': sorted(self.consulted),
                'obligation_list': [{k: v for k, v in it.items() if v} for it in self.items],
                'sources_digest': self.digest,
            },
            'assumptions': self.assumptions,
            'violations': len(bad),
            'wall_s': round(time.time() - self.t0, 3),
        }
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for it in self.items:
            if it['verdict'] == 'known':
                print('KNOWN-FINDING: property=%s %s' % (self.pid, it['detail']))
        print('%s: %d obligations, %d hold, %d undecided, %d known, %d violated (%.1f s)' % (
            self.pid, len(self.items), by.get('holds', 0), by.get('undecided', 0), by.get('known', 0), len(bad),
            time.time() - self.t0))
        for it in self.items:
            if it['verdict'] == 'undecided':
                print('  undecided: %s [%s] %s %s' % (it['subject'], it['rule'], it['where'], it['detail'][:300]))
        if bad:
            path = os.path.join(d, self.pid + '.violation.txt')
            with open(path, 'w') as f:
                for it in bad:
                    f.write('rule: %s\nconstruct: %s\nat: %s\n%s\n\n' % (it['rule'], it['subject'], it['where'], it['detail']))
            for it in bad:
                print('  violated: %s [%s] at %s' % (it['subject'], it['rule'], it['where']))
                for ln in it['detail'].splitlines()[:12]:
                    print('      ' + ln[:400])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        stale = os.path.join(d, self.pid + '.violation.txt')
        if os.path.exists(stale):
            os.remove(stale)
        if len(self.items) < max(1, minimum // 2):
            print('ERROR: only %d rule instances found, at least %d expected: the analysis does not see the code it is '
                  'about' % (len(self.items), max(1, minimum // 2)))
            return 2
        return 0


def load_known(pid):
    """known findings of a property: {construct key: text}; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: property=%s ' % pid):
                rest = ln[len('known: property=%s ' % pid):]
                key, _, text = rest.partition(' :: ')
                out[key.strip()] = text.strip()
    return out
