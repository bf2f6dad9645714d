#!/usr/bin/env python3
"""run.py COLLECTED MUTANTS OUT [-j N] [-n PER_CHECK] [-full]: which single changes of /repo the programs of the quick checks show, and which of those the specification refuses.
COLLECTED: the directory written by collect.py; MUTANTS: lines of mutate.go (paths relative to /repo); OUT: one JSON line per mutant.
Results: nobuild, tests (the repository's tests fail), same (no trace differs), accepted (traces differ, the specification accepts them), unwanted (mismatches no check owning the program reports), caught."""
import argparse, fnmatch, hashlib, json, os, random, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
sys.path.insert(0, os.path.join(ROOT, "bin"))
sys.dont_write_bytecode = True
import checks, engine
ap = argparse.ArgumentParser()
ap.add_argument("dir"); ap.add_argument("mutants"); ap.add_argument("out")
ap.add_argument("-j", type=int, default=6); ap.add_argument("-n", type=int, default=150)
ap.add_argument("-work", default="/tmp/mutwork")
a = ap.parse_args()
P = json.load(open(os.path.join(a.dir, "programs.json")))
by, progs = P["by"], P["progs"]
owner = {}
for c, ids in by.items():
    for i in ids: owner.setdefault(i, []).append(c)
C = json.load(open(os.path.join(a.dir, "cover.json")))
sel = C["progs"]
blocks = {}
for f, sl, sc, el, ec, l in C["blocks"]: blocks.setdefault(f, []).append((sl, sc, el, ec, l))


def covering(m):
    """the programs to run for a mutant: some of those that run its block, of as many checks as possible; None: no block (declarations)"""
    at = (m["line"], m["col"])
    bs = [b for b in blocks.get(m["file"], ()) if (b[0], b[1]) <= at <= (b[2], b[3])]
    rng = random.Random(repr(at))
    if not bs: return rng.sample(sel, 300)
    bl = max(bs, key=lambda b: b[:2])
    ids = [sel[i] for i in bl[4] if sel[i] in stable]
    loose = [sel[i] for i in bl[4] if sel[i] not in stable]
    rng.shuffle(ids)
    n, out = {}, []
    for i in sorted(ids, key=lambda i: owner[i][0] in ("C05", "C31", "C30", "C04")):
        c = owner[i][0]
        n[c] = n.get(c, 0) + 1
        out.append((n[c], i))
    out.sort(key=lambda t: t[0])
    return [i for _, i in out[:a.n]] + rng.sample(loose, min(15, len(loose)))


RES = os.path.abspath(os.path.join(a.dir, "res"))
ENV = dict(os.environ, **engine.GOENV)
os.makedirs(a.work, exist_ok=True)
facts = os.path.abspath(os.path.join(a.dir, "facts.nd"))


def harness(h, ids, out, tmp, timeout):
    pf = out + ".prog"
    with open(pf, "w") as f:
        for i in ids: f.write(json.dumps({"id": i, "ops": progs[i]}) + "\n")
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    try:
        r = subprocess.run([h, "run", "-prog", pf, "-out", out, "-res", RES, "-tmp", tmp, "-timeout", "10"], capture_output=True, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout[-300:] + r.stderr[-300:]
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def split(tf):
    d, cur, buf = {}, None, []
    for l in open(tf, errors="replace"):
        if '"op":"Program"' in l:
            if cur is not None: d[cur] = buf
            try: cur = json.loads(l)["id"]
            except ValueError: cur = None
            buf = []
        buf.append(l)
    if cur is not None: d[cur] = buf
    return d


hsh = lambda ls: hashlib.md5("".join(ls).encode()).hexdigest()


class Worker:
    def __init__(self, k):
        self.d = os.path.join(a.work, "w%d" % k)
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        self.repo = os.path.join(self.d, "repo")
        shutil.copytree("/repo", self.repo, ignore=shutil.ignore_patterns(".git"))
        self.h = os.path.join(self.d, "harness")
        shutil.copytree(os.path.join(ROOT, "harness"), self.h)
        g = os.path.join(self.h, "go.mod")
        s = open(g).read().replace("=> /repo", "=> " + self.repo)
        open(g, "w").write(s)
        self.e = engine.Engine()
        self.e.facts_file = facts

    def build(self):
        r = subprocess.run(["go", "build", "-o", os.path.join(self.d, "bin"), "."], cwd=self.h, env=ENV, capture_output=True, text=True)
        return r.returncode == 0

    def tests(self):
        try: r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "./..."], cwd=self.repo, env=ENV, capture_output=True, text=True, errors="replace", timeout=100)
        except subprocess.TimeoutExpired: return False
        return r.returncode == 0

    def traces(self, ids, timeout):
        tf = os.path.join(self.d, "t.nd")
        if os.path.exists(tf): os.remove(tf)
        rc, txt = harness(os.path.join(self.d, "bin"), ids, tf, os.path.join(self.d, "tmp"), timeout)
        return rc, txt, split(tf) if os.path.exists(tf) else {}

    def mutant(self, m):
        p = os.path.join(self.repo, m["file"])
        src = open(p, "rb").read()
        assert src[m["off"]:m["end"]] == m["old"].encode(), m
        open(p, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
        try:
            r = self.judge(m)
        finally:
            open(p, "wb").write(src)
        m.update(r)
        return m

    def judge(self, m):
        ids = covering(m)
        if not ids: return {"res": "uncovered"}
        if not self.build(): return {"res": "nobuild"}
        rc, txt, tr = self.traces(ids, 100)
        diff = [i for i in ids if i in tr and i in stable and hsh(tr[i]) != base[i]]
        diff += [i for i in ids if i not in stable and i in tr]
        ndiff = len(diff)
        if not self.tests(): return {"res": "tests"}
        if rc != 0:
            last = list(tr)[-1] if tr else None
            return {"res": "caught", "how": "crash " + txt[-200:], "last": last, "checks": owner.get(last, [])}
        if not any(i in stable for i in diff) and all(i in stable for i in ids): return {"res": "same"}
        rng = random.Random(1)
        rng.shuffle(diff)
        wanted, un = {}, set()
        for part in (diff[:40], diff[40:200]):
            tf = os.path.join(self.d, "j.nd")
            with open(tf, "w") as f:
                for i in part: f.write("".join(tr[i]))
            if not part: break
            try: mis, st = self.e.judge(tf)
            except engine.ToolError as x: return {"res": "tool", "how": str(x)[:600], "diff": ndiff, "progs": part[:3]}
            for x in mis:
                k = "%s/%s" % (x["op"], x["asp"])
                hit = False
                for c in owner[x["prog"]]:
                    if any(fnmatch.fnmatchcase(k, q) for q in checks.C[c]["asp"]):
                        wanted[c] = wanted.get(c, 0) + 1
                        hit = True
                if not hit: un.add(k)
            if wanted: break
        if wanted: return {"res": "caught", "diff": ndiff, "checks": wanted}
        if not any(i in stable for i in diff): return {"res": "same"}
        if un: return {"res": "unwanted", "diff": ndiff, "kinds": sorted(un), "progs": diff[:3]}
        return {"res": "accepted", "diff": ndiff, "progs": diff[:5]}


ms = [json.loads(l) for l in open(a.mutants)]
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        m = json.loads(l)
        done.add((m["file"], m["off"], m["end"], m["new"]))
ms = [m for m in ms if (m["file"], m["off"], m["end"], m["new"]) not in done]
W = [Worker(k) for k in range(a.j)]
t = time.time()
if not W[0].build(): sys.exit("no build")
if not W[0].tests(): print("warning: the repository's tests fail")
t = time.time()
rc, txt, tr = W[0].traces(sel, 3000)
dt = time.time() - t
base = {i: hsh(l) for i, l in tr.items()}
stable = set(base)
for k in range(2):
    rc2, _, tr = W[0].traces(sel, 3000)
    stable = {i for i in stable if i in tr and hsh(tr[i]) == base[i]}
print("programs", len(sel), "stable", len(stable), "exit", rc, "%.1f s" % dt, "unstable", sorted(set(sel) - stable)[:12], flush=True)
out = open(a.out, "a")
free, lock, cnt = list(W), threading.Lock(), {}


def one(m):
    with lock: w = free.pop()
    try: m = w.mutant(m)
    except Exception as x: m["res"] = "error"; m["how"] = repr(x)
    with lock:
        free.append(w)
        out.write(json.dumps(m) + "\n"); out.flush()
        cnt[m["res"]] = cnt.get(m["res"], 0) + 1
        n = sum(cnt.values())
        if n % 50 == 0: print(n, cnt, "%.0f s" % (time.time() - t), flush=True)


with ThreadPoolExecutor(a.j) as ex: list(ex.map(one, ms))
for w in W: w.e.close()
print(cnt)
shutil.rmtree(a.work, ignore_errors=True)
