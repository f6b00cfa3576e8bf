#!/usr/bin/env python3
"""Self-test of the checks on scratch variants of /repo.

  run.py [-k TEXT] [-p PID] [-b] [-s] [-v] [-r FROM:TO]   every case of cases.py: mutants must be reported by the property they name,
                              refactorings must leave every check quiet
A case is (kind, property ids, file, [(old, new), ...]); kind is 'bug' or 'same'.
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def checks():
    d = os.path.join(ROOT, 'rsa', 'checks')
    return sorted(f[:-3].upper() for f in os.listdir(d) if f[0] == 'c' and f[1:3].isdigit() and f.endswith('.py'))


def one(args):
    i, case, only = args
    kind, pids, edits = case
    d = tempfile.mkdtemp(prefix='selftest')
    try:
        shutil.copytree('/repo/riptide', os.path.join(d, 'riptide'), ignore=shutil.ignore_patterns('tests', '__pycache__', '*.so'))
        for f in ('setup.py', 'versioneer.py'):
            if os.path.exists('/repo/' + f):
                shutil.copy('/repo/' + f, d)
        for f, old, new in edits:
            p = os.path.join(d, 'riptide', f)
            s = open(p).read()
            if old is None:
                s += new
            elif s.count(old) < 1:
                return i, kind, pids, 'STALE', '%s: %r not found' % (f, old[:60])
            else:
                s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        for f, old, new in edits:
            p = os.path.join(d, 'riptide', f)
            if p.endswith('.py'):
                try:
                    compile(open(p).read(), p, 'exec')
                except SyntaxError as e:
                    return i, kind, pids, 'STALE', 'does not compile: %s' % e
        if any(p.endswith(('.hpp', '.cpp')) for p, _, _ in edits):
            r = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, %r)\nfrom rsa import cxxfront\nprint(cxxfront.parse(%r)[1] or "")' % (ROOT, d)], capture_output=True, text=True)
            if r.stdout.strip() or r.returncode:
                return i, kind, pids, 'STALE', 'does not compile: ' + r.stdout[:400] + r.stderr[-300:]
        run = pids if kind == 'bug' else checks()
        if only:
            run = [p for p in run if p in only]
        out = []
        hit = False
        for p in run:
            env = dict(os.environ, RSA_REPO=d, RSA_EVIDENCE=d)
            r = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), p], env=env, capture_output=True, text=True, timeout=900)
            if kind == 'bug':
                if r.returncode == 1:
                    hit = True
                else:
                    out.append('%s rc=%d %s' % (p, r.returncode, ' | '.join(x for x in r.stdout.splitlines() if 'undecided:' in x)[:700] + r.stderr[-300:]))
            elif '-v' in sys.argv and ' 0 undecided' not in r.stdout:
                print('#%d %s' % (i, edits[0][2][:90].replace(chr(10), ' ')), r.stdout[:600], flush=True)
            elif r.returncode != 0:
                out.append('%s rc=%d\n%s%s' % (p, r.returncode, r.stdout[-1500:], r.stderr[-600:]))
        if kind == 'bug':
            return i, kind, pids, 'ok' if hit else 'MISSED', '; '.join(out)
        return i, kind, pids, 'ok' if not out else 'ALARM', '\n'.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    import cases
    argv = sys.argv[1:]
    only = None
    key = None
    if '-p' in argv:
        only = argv[argv.index('-p') + 1].split(',')
    if '-k' in argv:
        key = argv[argv.index('-k') + 1]
    lo, hi = 0, len(cases.CASES)
    if '-r' in argv:
        lo, hi = [int(x) for x in argv[argv.index('-r') + 1].split(':')]
    sel = []
    for i, c in enumerate(cases.CASES):
        if not lo <= i < hi:
            continue
        if only and c[0] == 'bug' and not (set(only) & set(c[1])):
            continue
        if '-b' in argv and c[0] != 'bug' or '-s' in argv and c[0] != 'same':
            continue
        if key and key not in repr(c):
            continue
        sel.append((i, c, only))
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for i, kind, pids, res, det in ex.map(one, sel):
            if res != 'ok':
                bad += 1
                e = cases.CASES[i][2][0]
                print('#%d %s %s %s: %s  %r -> %r\n    %s' % (i, kind, pids, res, e[0], (e[1] or '')[:70], e[2][:90], det))
    print('%d cases, %d not as expected' % (len(sel), bad))


main()
