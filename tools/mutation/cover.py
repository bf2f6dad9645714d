#!/usr/bin/env python3
"""cover.py COLLECTED [-n PER_CHECK] [-j N]: which blocks of /repo's code each program runs (a sample of the collected programs): COLLECTED/cover.json {"progs": [ids], "blocks": [[file, sl, sc, el, ec, [indices]]]}"""
import argparse, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
sys.path.insert(0, os.path.join(ROOT, "bin"))
sys.dont_write_bytecode = True
import engine
ap = argparse.ArgumentParser()
ap.add_argument("dir"); ap.add_argument("-n", type=int, default=150); ap.add_argument("-j", type=int, default=6); ap.add_argument("-work", default="/tmp/covwork")
a = ap.parse_args()
P = json.load(open(os.path.join(a.dir, "programs.json")))
by, progs = P["by"], P["progs"]
rng = random.Random(7)
sel = set()
for c, ids in by.items(): sel |= set(rng.sample(ids, min(len(ids), a.n // 4 if c in ("C05", "C31", "C30") else a.n)))
sel = sorted(sel)
shutil.rmtree(a.work, ignore_errors=True)
os.makedirs(a.work)
ENV = dict(os.environ, **engine.GOENV)
h = os.path.join(a.work, "harness")
shutil.copytree(os.path.join(ROOT, "harness"), h)
s = open(h + "/main.go").read()
s = s.replace('import (', 'import (\n\t"runtime/coverage"\n', 1)
s = s.replace("		w := NewWorld(res, tmp)\n		w.keep", "		coverage.ClearCounters()\n		w := NewWorld(res, tmp)\n		w.keep", 1)
k = s.index("	bw.Flush()\n	fh.Close()\n")
j = s.rindex("	}\n", 0, k)
s = s[:j] + '		cd := fmt.Sprintf("%s/%d", os.Getenv("COVOUT"), i)\n		os.MkdirAll(cd, 0755)\n		if err := coverage.WriteMetaDir(cd); err != nil {\n			die(err)\n		}\n		if err := coverage.WriteCountersDir(cd); err != nil {\n			die(err)\n		}\n' + s[j:]
open(h + "/main.go", "w").write(s)
g = open(h + "/go.mod").read().replace("go 1.13", "go 1.21")
open(h + "/go.mod", "w").write(g)
subprocess.run(["go", "build", "-cover", "-covermode=atomic", "-coverpkg=./...,github.com/signintech/gopdf,github.com/signintech/gopdf/fontmaker/core", "-o", a.work + "/bin", "."], cwd=h, env=ENV, check=True)


def shard(k):
    ids = sel[k::a.j]
    d = "%s/s%d" % (a.work, k)
    os.makedirs(d + "/tmp"); os.makedirs(d + "/cov")
    with open(d + "/p", "w") as f:
        for i in ids: f.write(json.dumps({"id": i, "ops": progs[i]}) + "\n")
    r = subprocess.run([a.work + "/bin", "run", "-prog", d + "/p", "-out", "/dev/null", "-res", os.path.join(a.dir, "res"), "-tmp", d + "/tmp", "-timeout", "60"], env=dict(ENV, COVOUT=d + "/cov", GOCOVERDIR=d + "/tmp"), capture_output=True, text=True)
    if r.returncode: print("shard", k, r.returncode, r.stderr[-500:], r.stdout[-300:])
    out = {}
    for n, i in enumerate(ids):
        c = "%s/cov/%d" % (d, n)
        if not os.path.isdir(c): continue
        subprocess.run(["go", "tool", "covdata", "textfmt", "-i", c, "-o", c + ".txt"], env=ENV, check=True, cwd=h)
        ls = open(c + ".txt").read().split("\n")[1:]
        out[i] = [l.rsplit(" ", 2)[0] for l in ls if l and not l.endswith(" 0")]
        out.setdefault("*", set()).update(l.rsplit(" ", 2)[0] for l in ls if l)
        shutil.rmtree(c); os.remove(c + ".txt")
    return out


ix = {i: n for n, i in enumerate(sel)}
blocks, seen = {}, set()
with ThreadPoolExecutor(a.j) as ex:
    for o in ex.map(shard, range(a.j)):
        for b in o.pop("*", ()): blocks.setdefault(b, [])
        for i, bs in o.items():
            seen.add(i)
            for b in bs: blocks[b].append(ix[i])
res = []
for b, l in blocks.items():
    m = re.match(r"github.com/signintech/gopdf/(.*):(\d+)\.(\d+),(\d+)\.(\d+)", b)
    if m: res.append([m.group(1)] + [int(x) for x in m.groups()[1:]] + [sorted(l)])
res.sort()
json.dump({"progs": sel, "blocks": res}, open(os.path.join(a.dir, "cover.json"), "w"))
print("programs", len(seen), "blocks", len(res), "covered", sum(1 for r in res if r[5]))
for r in res:
    if not r[5] and not r[0].startswith("fontmaker"): print("never run: %s:%d-%d" % (r[0], r[1], r[3]))
shutil.rmtree(a.work, ignore_errors=True)
