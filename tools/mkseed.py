#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from tools/seeds/<id>.py: applies the edits in a scratch copy of /repo, confirms that it
builds, passes the baseline tests, that the demonstration passes without and fails with the change, and that only
original lines are changed. usage: mkseed.py [-f] ID..."""
import json, os, shutil, subprocess, sys

V = '/verif'
BASE = 'c47aa7c'

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def one(sid):
    src = {}
    exec(open(f'{V}/tools/seeds/{sid}.py').read(), src)
    work = '/tmp/seedwork'
    shutil.rmtree(work, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', work])
    sh('git checkout -q -- . && git clean -fdq', work)
    for f, old, new in src['edits']:
        p = f'{work}/{f}'
        s = open(p).read()
        if s.count(old) != 1:
            return f'{f}: edit text found {s.count(old)} times'
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', work).stdout
    # removed lines must be original ones
    head = sh('git rev-parse HEAD', work).stdout.strip()
    cur, ln, warn, orig = None, 0, [], 0
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            cur = l[6:]
            bl = sh(f'git blame -s HEAD -- {cur}', work).stdout.split('\n')
            mine = sh(f'git log --format=%h --abbrev=8 {BASE}..HEAD', work).stdout.split()
        elif l.startswith('@@'):
            ln = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-') and not l.startswith('---'):
            if any(bl[ln - 1].lstrip('^').startswith(m[:7]) for m in mine):
                warn.append(l)
            else:
                orig += 1
            ln += 1
        elif l.startswith(' '):
            ln += 1
    if orig == 0 and any(l.startswith('-') and not l.startswith('---') for l in diff.split('\n')):
        return 'only lines of own commits changed: ' + '; '.join(warn)
    g = sh('gofmt -l $(git diff --name-only); . /opt/vp/env.sh; go build ./... && go vet . ', work)
    if g.returncode:
        return 'build: ' + g.stdout
    if g.stdout.strip():
        print('   note:', g.stdout.strip())
    # tests
    t = sh('. /opt/vp/env.sh; rm -rf test/out; mkdir -p test/out; go test -json -vet=off -count=1 -timeout 10m ./...', work).stdout
    passed = set()
    for l in t.split('\n'):
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and e.get('Test'):
            passed.add(e["Package"] + "/" + e["Test"])
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base if isinstance(base, list) else base.get('stable') or base.get('tests') or base.get('passed')
    names = list(names)
    miss = [n for n in names if n not in passed]
    if miss:
        return 'tests fail: ' + ', '.join(map(str, miss[:5]))
    sh('git checkout -q -- . && git clean -fdq', work)
    out = f'{V}/seeded/{sid}'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copy(f'{V}/tools/demo/helper.go', out)
    shutil.copy(f'{V}/tools/demo/demo.sh', out)
    os.chmod(f'{out}/demo.sh', 0o755)
    open(f'{out}/main.go', 'w').write('package main\n\n' + src['demo'].lstrip())
    sh(f'goimports -w {out}/main.go || gofmt -w {out}/main.go', work)
    open(f'{out}/patch.diff', 'w').write(diff)
    json.dump({'property': src['prop'], 'needs': src['needs'], 'what_it_breaks': src['breaks']},
              open(f'{out}/meta.json', 'w'), indent=1)
    a = sh(f'bash {out}/demo.sh', work)
    if a.returncode != 0:
        return 'demo fails without the change: ' + a.stdout[-800:]
    p = sh(f'git apply {out}/patch.diff', work)
    if p.returncode:
        return 'patch does not apply: ' + p.stdout
    b = sh(f'bash {out}/demo.sh', work)
    if b.returncode == 0:
        return 'demo passes with the change'
    if b.returncode != 1:
        return 'demo: ' + b.stdout[-800:]
    print('   ', b.stdout.strip()[-150:], '(lines of own commits: %d)' % len(warn) if warn else '')
    return None

bad = 0
for sid in sys.argv[1:] or sorted(f[:-3] for f in os.listdir(f'{V}/tools/seeds')):
    r = one(sid)
    print(sid, 'OK' if r is None else 'FAILED ' + r, flush=True)
    if r is not None:
        bad += 1
        shutil.rmtree(f'{V}/seeded/{sid}', ignore_errors=True)
shutil.rmtree('/tmp/seedwork', ignore_errors=True)
sys.exit(bad > 0)
