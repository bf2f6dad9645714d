"""Builds the harness against /repo, runs programs on the real code, and lets TLC judge the recorded traces."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import synth

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
RES = os.path.join(ROOT, "res")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = max(2, min(8, os.cpu_count() or 2))
GOENV = dict(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")


class ToolError(Exception):
    pass


class Engine:
    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix="gopdfverif")
        self.states = self.transitions = 0
        self.lock = threading.Lock()
        self.facts_file = None
        self.res = RES
        self.n = 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.tmp, "%d-%s" % (self.n, name))

    # ---- the real code
    def build(self, race=False):
        out = os.path.join(self.tmp, "harness" + ("-race" if race else ""))
        env = dict(os.environ)
        env.update(GOENV)
        env["PATH"] = env.get("PATH", "") + ":/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
        env.setdefault("HOME", "/root")
        env.setdefault("GOCACHE", "/root/.cache/go-build")
        # the module files are copied so that nothing under /verif or /repo is touched
        src = os.path.join(self.tmp, "src")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(ROOT, "harness"), src)
        r = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-o", out, "."], cwd=src, env=env, capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise ToolError("building the harness against /repo failed:\n" + r.stderr[-3000:])
        self.harness = out
        return out

    def facts(self, fonts, chars, images, pdfs):
        spec, out = self.path("facts.json"), self.path("facts.nd")
        json.dump({"fonts": fonts, "chars": sorted(set([-1, 32] + list(chars))), "images": images, "pdfs": pdfs}, open(spec, "w"))
        r = subprocess.run([self.harness, "facts", "-prog", spec, "-out", out, "-res", self.res], capture_output=True, text=True, timeout=120)
        if r.returncode != 0:
            raise ToolError("facts: " + r.stderr[-2000:])
        f = json.load(open(out))
        self.facts_file = out
        return f

    def synthesise(self, rng, pool, need, nfonts, nimages, nbroken=0):
        """a directory of source files with made-up fonts and images besides the fixed ones; {name: what it maps}"""
        d = self.path("res")
        os.makedirs(d)
        for f in os.listdir(RES): os.symlink(os.path.join(RES, f), os.path.join(d, f))
        truth = {}
        for i in range(nfonts):
            b, t = synth.font(rng, pool, need, i)
            open(os.path.join(d, "s%d.ttf" % i), "wb").write(b)
            truth["s%d.ttf" % i] = t
        for i in range(nimages):
            open(os.path.join(d, synth.name(i)), "wb").write(synth.image(rng, i))
        for i in range(nbroken):
            n = synth.bname(i)
            src = synth.font(rng, pool, need, i)[0] if n.endswith(".ttf") else synth.jpeg(rng, i) if n.endswith(".jpg") else synth.image(rng, 5 * rng.randrange(100) + rng.randrange(4))
            open(os.path.join(d, n), "wb").write(synth.broken(rng, i, src))
        if nimages: open(os.path.join(d, "big.png"), "wb").write(synth.big(rng))
        self.res = d
        return truth

    def execute(self, progs, timeout=25):
        """runs programs; returns (trace file, problems).  Problems: [program id, op index, kind, text]"""
        pf, tf = self.path("prog.json"), self.path("trace.nd")
        with open(pf, "w") as fh:
            for p in progs:
                fh.write(json.dumps(p) + "\n")
        probs, skip = [], 0
        while True:
            tmp = self.path("tmp")
            os.makedirs(tmp)
            cmd = [self.harness, "run", "-prog", pf, "-out", tf, "-res", self.res, "-tmp", tmp, "-skip", str(skip), "-timeout", str(timeout)]
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=840)
            except subprocess.TimeoutExpired:
                raise ToolError("harness did not end")
            shutil.rmtree(tmp, ignore_errors=True)
            if r.returncode == 0:
                break
            m = re.search(r"^HANG (\d+) (\S+) (\d+)", r.stdout, re.M)
            if m:
                k = int(m.group(1))
                probs.append([m.group(2), int(m.group(3)), "hang", "the call did not return"])
            else:
                # the process died: the last program announced in the trace
                k, last = skip - 1, None
                done = 0
                for line in open(tf, errors="replace"):
                    if '"op":"Program"' in line:
                        done += 1
                        try: last = json.loads(line)["id"]
                        except ValueError: pass
                ids = [p["id"] for p in progs]
                if last not in ids:
                    raise ToolError("harness: exit %d\n%s" % (r.returncode, r.stderr[-2000:]))
                k = ids.index(last)
                if "harness:" in r.stderr and "unknown op" in r.stderr:
                    raise ToolError(r.stderr[-2000:])
                probs.append([last, -1, "crash", (r.stderr or r.stdout)[-600:]])
            self._drop_tail(tf, progs[k]["id"])
            skip = k + 1
            if skip >= len(progs) or len(probs) > 5:
                break
        return tf, probs

    def _drop_tail(self, tf, pid):
        lines = open(tf, errors="replace").read().split("\n")
        for i in range(len(lines) - 1, -1, -1):
            if lines[i].startswith("{") and '"op":"Program"' in lines[i] and '"id":"%s"' % pid in lines[i]:
                lines = lines[:i]
                break
        open(tf, "w").write("\n".join(lines) + ("\n" if lines and lines[-1] else ""))

    # ---- TLC
    def tlc(self, module, cfg, env=None, workers=1, mem="3g", timeout=800, extra=()):
        meta = self.path("meta")
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-XX:TieredStopAtLevel=" + ("4" if os.environ.get("VERIF_TIER") == "thorough" else "1"),
               "-Djava.io.tmpdir=" + self.tmp, "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", cfg] + list(extra) + [module]
        e = dict(os.environ)
        if self.facts_file: e["FACTS"] = self.facts_file
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s took more than %d s" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    @staticmethod
    def printed(out, tag):
        res = []
        for line in out.split("\n"):
            if line.startswith('"' + tag + " "):
                try:
                    res.append(json.loads(json.loads(line)[len(tag) + 1:]))
                except ValueError:
                    raise ToolError("cannot read: " + line[:300])
        return res

    def judge(self, tf, resumed=0):
        if os.path.getsize(tf) == 0:
            return [], {}
        rc, out = self.tlc("DocTrace.tla", "DocTrace.cfg", {"TRACE": tf})
        mis = self.printed(out, "MISMATCH")
        if rc != 0 or "Model checking completed. No error" not in out:
            k = out.find("Error:")
            at = [int(x) for x in re.findall(r"^/\\ l = (\d+)", out, re.M)]
            # after a disagreement the numbers of a program may leave those of TLC: it ends there
            lines = open(tf, errors="replace").read().split("\n")
            starts = [i for i, x in enumerate(lines) if '"op":"Program"' in x]
            cur = [i for i in starts if at and i < max(at)]
            pid = json.loads(lines[cur[-1]])["id"] if cur else None
            if pid is None or resumed >= 20 or not any(m["prog"] == pid for m in mis):
                raise ToolError("TLC could not judge the trace %s:\n%s\n...\n%s" % (tf, out[k:k + 1200], out[-1500:]))
            rest = [i for i in starts if i > cur[-1]]
            mis = [x for i, x in enumerate(mis) if x not in mis[:i]] # the failing run reports twice
            if not rest:
                return mis, {}
            tf2 = self.path("rest")
            try:
                open(tf2, "w").write("\n".join(lines[:starts[0]] + lines[rest[0]:]))
                m2, st = self.judge(tf2, resumed + 1)
            finally:
                os.remove(tf2)
            return mis + m2, st
        m = re.search(r"(\d+) states generated", out)
        with self.lock:
            self.transitions += int(m.group(1)) if m else 0
            self.states += int(m.group(1)) if m else 0
        st = self.printed(out, "STATS")
        return mis, (st[-1] if st else {})

    def validate(self, progs, chunk=None, timeout=25):
        """executes and judges programs in parallel; returns (mismatches, problems, totals)"""
        if not progs: return [], [], {}
        chunk = chunk or 150
        n = max(CPUS, (len(progs) + chunk - 1) // chunk)
        n = (n + CPUS - 1) // CPUS * CPUS
        parts = [p for p in (progs[i::n] for i in range(n)) if p]

        def one(ps):
            tf, probs = self.execute(ps, timeout)
            try:
                mis, st = self.judge(tf)
            finally:
                if not os.environ.get("VERIF_KEEP"): os.remove(tf)
            return mis, probs, st
        mis, probs, tot = [], [], {}
        with ThreadPoolExecutor(CPUS) as ex:
            for m, p, s in ex.map(one, parts):
                mis += m
                probs += p
                for k, v in s.items(): tot[k] = tot.get(k, 0) + v
        return mis, probs, tot
