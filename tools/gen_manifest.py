#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present in rsa/checks and the reasons below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NF = 'value-flow normal form of the source compared with a reference definition'
TECH = {}
NOTE = ('Decided by abstract interpretation of the current source into value-flow normal forms for all inputs; trusts the '
        'documented meaning of Python, numpy and pandas primitives modelled in rsa/lib.py, and real arithmetic in place of '
        'rounding. Code outside the modelled language is reported as undecided in the evidence, not as a violation.')
NOTES = {}
exec(open(os.path.join(ROOT, 'tools', 'manifest_texts.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, 'rsa', 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': TECH.get(i, NF), 'level': 'other', 'level_note': NOTES.get(i, NOTE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'the check for this property is not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 9)"', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: they parse /repo (Python ast; clang AST for the C++ headers) on every run and never import or execute it. '
              'No hooks are needed in /repo.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not applicable:', [x['property'] for x in na])
