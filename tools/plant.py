#!/usr/bin/env python3
"""Plants the bugs described in tools/plants.py: makes a scratch copy of /repo, applies the edit, builds, runs the
project's tests and the demonstration, and (when all is as wanted) writes seeded/<id>/. Prints which checks catch it."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
RESULTS = {}
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec %s "$(dirname "$0")/demo.py"
''' % PY


def sh(cmd, cwd, timeout=600):
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', SETUPTOOLS_SCM_PRETEND_VERSION='0.2.5')
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, timeout=timeout)


def plant(p, write=True):
    tmp = tempfile.mkdtemp(prefix='plant')
    w = os.path.join(tmp, 'repo')
    try:
        shutil.copytree('/repo', w, symlinks=True)
        d = os.path.join(tmp, 'demo')
        os.mkdir(d)
        open(os.path.join(d, 'demo.sh'), 'w').write(p.get('demo_sh', DEMO))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(p['demo'])
        demo = 'bash %s/demo.sh' % d
        r = sh(demo, w)
        if r.returncode:
            return 'BAD: demo fails on the unchanged tree\n' + r.stdout[-1500:] + r.stderr[-1500:]
        cpp = False
        for f, a, b in p['edits']:
            fn = os.path.join(w, f)
            s = open(fn).read()
            if s.count(a) != 1:
                return 'BAD: %r occurs %d times in %s' % (a, s.count(a), f)
            open(fn, 'w').write(s.replace(a, b))
            cpp = cpp or f.endswith('pp')
        diff = sh('git diff', w).stdout
        if cpp:
            r = sh('rm -f riptide/libcpp*.so; %s setup.py -q build_ext --inplace --force' % PY, w)
            if r.returncode:
                return 'BAD: does not build\n' + r.stderr[-1500:]
        r = sh('%s -m pytest -q -x -p no:cacheprovider --timeout=300 riptide/tests' % PY, w)
        if r.returncode:
            return 'BAD: existing tests notice\n' + r.stdout[-1200:]
        r = sh(demo, w)
        if r.returncode == 0:
            return 'BAD: demo passes with the change'
        out = 'ok (demo: %s)' % (r.stderr.strip().splitlines() or ['rc %d' % r.returncode])[-1][:150]
        if write:
            o = os.path.join(ROOT, 'seeded', p['id'])
            os.makedirs(o, exist_ok=True)
            open(os.path.join(o, 'patch.diff'), 'w').write(diff)
            for f in ('demo.sh', 'demo.py'):
                shutil.copy(os.path.join(d, f), o)
            json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'rsa', 'checks')) if f[0] == 'c' and f[1:3].isdigit())
        hits = []
        for i in ids:
            env = dict(os.environ, RSA_REPO=w, RSA_EVIDENCE=tmp)
            r = subprocess.run([sys.executable, 'check.py', i], cwd=ROOT, env=env, capture_output=True, text=True)
            if r.returncode == 1:
                hits.append(i)
            elif r.returncode:
                hits.append('%s:rc%d' % (i, r.returncode))
        RESULTS[p['id']] = hits
        return out + '\n   caught by: ' + (' '.join(hits) or 'NONE') + ('' if p['property'] in hits else '   <-- own property MISSED')
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    from plants import PLANTS
    from concurrent.futures import ThreadPoolExecutor
    sel = [p for p in PLANTS if not sys.argv[1:] or p['id'] in sys.argv[1:] or ('new' in sys.argv[1:] and not os.path.exists(os.path.join(ROOT, 'seeded', p['id'])))]
    with ThreadPoolExecutor(4) as ex:
        for p, r in zip(sel, ex.map(plant, sel)):
            print('%s [%s] %s' % (p['id'], p['property'], r), flush=True)
    f = os.path.join(ROOT, 'tools', 'seed_results.json')
    old = json.load(open(f)) if os.path.exists(f) else {}
    old.update(RESULTS)
    json.dump({k: old[k] for k in sorted(old)}, open(f, 'w'), indent=0)
