#!/usr/bin/env python3
"""Writes /verif/DESIGN.md"""
import importlib, json, os, sys, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'selftest'), os.path.join(ROOT, 'tools')]
sys.dont_write_bytecode = True
TECH = {}
exec(open(os.path.join(ROOT, 'tools', 'manifest_texts.py')).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
res = json.load(open(os.path.join(ROOT, 'tools', 'seed_results.json')))
seeds = {d: json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json'))) for d in sorted(os.listdir(os.path.join(ROOT, 'seeded')))}
import cases
n = len(cases.CASES)
out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read().replace('@NSELF@', str(n)).replace('@NSEED@', str(len(seeds)))]


def wrap(s, ind=''):
    return textwrap.fill(s, 124, initial_indent=ind, subsequent_indent=ind)


for p in props:
    f = os.path.join(ROOT, 'rsa', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        continue
    m = importlib.import_module('rsa.checks.' + p['id'].lower())
    out.append('### %s - %s\n\n%s\n' % (p['id'], p['title'], wrap(m.EXPLANATION)))
    if p['id'] in NOTES:
        out.append(wrap('Limits: ' + NOTES[p['id']]) + '\n')
    mine = [d for d in seeds if seeds[d]['property'] == p['id']]
    also = [d for d in res if p['id'] in res[d] and d in seeds and d not in mine]
    out.append(wrap('Planted bugs of this property: %s.%s' % (', '.join('%s (%s)' % (d, 'caught' if p['id'] in res.get(d, ()) else 'MISSED') for d in mine) or 'none',
                                                              ' Also notices: %s.' % ', '.join(also) if also else '')) + '\n')
out.append('## 5. Not applicable\n')
for p in props:
    if not os.path.exists(os.path.join(ROOT, 'rsa', 'checks', p['id'].lower() + '.py')):
        out.append(wrap('%s (%s): %s' % (p['id'], p['title'], NA.get(p['id'], '')), '') + '\n')
out.append('## 6. Planted bugs\n\n| id | property | breaks | needs | caught by |\n|---|---|---|---|---|')
for d in seeds:
    out.append('| %s | %s | %s | %s | %s |' % (d, seeds[d]['property'], seeds[d]['what_it_breaks'].replace('|', '/'), seeds[d]['needs'].replace('|', '/'), ' '.join(res.get(d, [])) or 'none'))
out.append('\n' + open(os.path.join(ROOT, 'tools', 'design_tail.md')).read())
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
