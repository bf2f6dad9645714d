#!/usr/bin/env python3
"""Plants the bugs of bugs*.py one after another in scratch copies of /repo and runs the check
of the property each was written against.

usage: run.py [-j JOBS] [-o OUT.jsonl] [-t tier] BUGS.py [NAME ...]
"""
import argparse, importlib.util, json, os, queue, shutil, subprocess, sys, threading
sys.dont_write_bytecode = True
a = argparse.ArgumentParser()
a.add_argument("-j", type=int, default=2)
a.add_argument("-o", default="/tmp/rt/out.jsonl")
a.add_argument("-t", default="quick")
a.add_argument("-c", default="")
a.add_argument("bugs")
a.add_argument("names", nargs="*")
a = a.parse_args()
s = importlib.util.spec_from_file_location("bugs", a.bugs)
m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
base = {x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
done = set()
if os.path.exists(a.o) and not a.names:
    done = {json.loads(l)["name"] for l in open(a.o)}
todo = queue.Queue()
for x in m.B:
    if x[4] is not None and x[3] and (not a.names or x[0] in a.names) and x[0] not in done:
        todo.put(x)
lock = threading.Lock()
env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=a.t)

def sh(c, cwd, t=900):
    try:
        r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + c], cwd=cwd, env=env, timeout=t,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def worker(k):
    fx, vx = f"/tmp/rtfx{k}", f"/tmp/rtvx{k}"
    for d in fx, vx:
        shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", fx]); subprocess.run(["cp", "-a", "/verif", vx])
    sh(f"sed -i 's#=> /repo#=> {fx}#' harness/go.mod; sed -i 's#\"/repo#\"{fx}#g; s#\"/verif#\"{vx}#g' bin/*.py", vx)
    while True:
        try:
            name, prop, f, old, new, n = todo.get_nowait()
        except queue.Empty:
            break
        res = {"name": name, "prop": prop}
        edits = [(f, old, new)] if isinstance(f, str) else f
        ok = True
        sh("git checkout -q -- . ", fx)
        for (g, o, w) in edits:
            p = f"{fx}/{g}"
            t = open(p).read()
            if o not in t:
                res.update(result="nomatch", at=o[:60]); ok = False; break
            open(p, "w").write(t.replace(o, w, 1))
        if ok:
            r, out = sh("go build ./...", fx)
            if r: res.update(result="nobuild", out=out[-400:]); ok = False
        if ok:
            sh("rm -rf test/out; mkdir -p test/out", fx)
            r, out = sh("go test -json -vet=off -count=1 -timeout 5m ./...", fx)
            passed = set()
            for l in out.splitlines():
                try: e = json.loads(l)
                except ValueError: continue
                if e.get("Action") == "pass" and e.get("Test"):
                    passed.add(e["Package"] + "/" + e["Test"])
            miss = [b for b in base if b not in passed and not any(b.endswith(p) for p in ())]
            if miss: res.update(result="tests", miss=miss[:3]); ok = False
        if ok:
            got = []
            for c in (a.c.split(",") if a.c else [prop]):
                r, out = sh(f"python3 bin/check.py {c}", vx)
                k_ = [l for l in out.splitlines() if l.startswith("  ")]
                got.append((c, r, (k_ or out.splitlines()[-1:])[:2]))
            res.update(result="caught" if any(g[1] == 1 for g in got) else "missed" if all(g[1] == 0 for g in got) else "noanswer", got=got)
        sh("git checkout -q -- . ; git clean -fdq", fx)
        with lock:
            open(a.o, "a").write(json.dumps(res) + "\n")
            print(res["result"], name, str(res.get("got") or res.get("miss") or res.get("at") or res.get("out"))[:260], flush=True)
    for d in fx, vx:
        shutil.rmtree(d, ignore_errors=True)

ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
