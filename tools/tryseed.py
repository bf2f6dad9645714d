#!/usr/bin/env python3
"""Applies seeded changes to /repo one after another, runs the checks of their property (or those given with -c) and
undoes the change. usage: tryseed.py [-t tier] [-c C01,C02] [ID...]. An ID without patch.diff uses tools/seeds/<id>.py."""
import json, os, re, subprocess, sys, time
V = '/verif'
args = sys.argv[1:]
tier, checks = 'quick', None
while args and args[0].startswith('-'):
    if args[0] == '-t': tier = args[1]
    if args[0] == '-c': checks = args[1].split(',')
    args = args[2:]
ids = args or sorted(os.listdir(V + '/seeded'))
def git(*a): return subprocess.run(['git', '-C', '/repo'] + list(a), capture_output=True, text=True)
assert not git('status', '--short').stdout.strip()
for sid in ids:
    try:
        p = f'{V}/seeded/{sid}/patch.diff'
        if os.path.exists(p):
            prop = json.load(open(f'{V}/seeded/{sid}/meta.json'))['property']
            r = git('apply', p)
            assert r.returncode == 0, r.stderr
        else:
            src = {}
            exec(open(f'{V}/tools/seeds/{sid}.py').read(), src)
            prop = src['prop']
            for f, old, new in src['edits']:
                s = open('/repo/' + f).read()
                assert s.count(old) == 1, (f, s.count(old))
                open('/repo/' + f, 'w').write(s.replace(old, new))
        for c in checks or [prop]:
            t = time.time()
            r = subprocess.run(['python3', 'bin/check.py', c], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED='1', VERIF_TIER=tier))
            open(f'/tmp/try.{sid}.{c}.log', 'w').write(r.stdout + r.stderr)
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            print(f'{sid:28} {c} {"CAUGHT" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "??? %d" % r.returncode} {time.time()-t:.0f}s', flush=True)
    finally:
        git('checkout', '--', '.')
