#!/usr/bin/env python3
"""check.py ID: decides one property.  VERIF_TIER quick|thorough, VERIF_SEED.  Exit 0: held; 1: violated; 2: no answer."""
import copy, fnmatch, json, os, random, re, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import synth, engine, gen, profiles, alpha, checks
from engine import ROOT, ToolError
from concurrent.futures import ThreadPoolExecutor


def sources(e, seed, nfonts=0, nimages=0, nbroken=0):
    """the facts about the source files, and the characters of each font no two of which have the same glyph"""
    if nfonts or nimages:
        rng = random.Random("synth/%d" % seed)
        truth = e.synthesise(rng, [c for c in gen.POOL if c > 31], [32, 45] + rng.sample(gen.LATIN, 8), nfonts, nimages, nbroken)
        for i in range(nfonts): gen.FONTS["s%d" % i] = "s%d.ttf" % i
        gen.SFONTS[:] = ["s%d" % i for i in range(nfonts)]
        gen.SIMAGES[:] = [synth.name(i) for i in range(nimages)]
        gen.BROKEN[:] = [synth.bname(i) for i in range(nbroken)]
        gen.SMASKS[:] = [synth.name(i) for i in range(3, nimages, 5)]
    f = e.facts(sorted(gen.FONTS.values()), gen.POOL + gen.QUERY, gen.IMAGES + gen.MASKS + gen.SIMAGES + (["big.png"] if nimages else []), list(gen.PDFS) + ["e.pdf", "f.pdf"])
    pools = {}
    for ft in f["fonts"]:
        seen, pl = set(), []
        for c, g, w, h in ft["chars"]:
            if nfonts and ft["name"] in truth and c > 0 and (g, w if g else 0) != truth[ft["name"]].get(c, (0, 0)):
                raise ToolError("the made-up font %s is read differently: character %d" % (ft["name"], c))
            if c > 0 and c != 10 and g and g not in seen:
                seen.add(g)
                pl.append(c)
        pools[ft["name"]] = pl
    return f, pools


class Check:
    def __init__(self, id):
        self.id, self.c = id, checks.C[id]
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.quick = self.tier == "quick"
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.e = engine.Engine()
        self.rng = random.Random("%s/%d" % (id, self.seed))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.parts, self.viol, self.known, self.queue = {}, [], [], []
        self.tot = {}

    # ---- preparation
    def setup(self):
        e = self.e
        e.build()
        ns, ni, nb = (self.c.get("synth", ()) + (0, 0, 0))[:3]
        self.facts, self.pools = sources(e, self.seed, ns if self.quick else 3 * ns, ni if self.quick else 4 * ni, nb if self.quick else 20 * nb)

    def wants(self, m):
        k = "%s/%s" % (m["op"], m["asp"])
        return any(fnmatch.fnmatchcase(k, p) for p in self.c["asp"])

    # ---- running programs on the real code, judged by the specification
    def add(self, name, progs):
        self.queue += progs
        if progs: self.parts.setdefault(name, {}).update(programs=len(progs), calls=sum(len(p["ops"]) for p in progs))

    def drain(self):
        ps, self.queue = self.queue, []
        ids = {}
        for p in ps: ids.setdefault(p["id"], p)
        self.run(list(ids.values()))

    def run(self, progs, known=None, timeout=25):
        """known: aspects that are a recorded finding of these programs"""
        if not progs: return
        mis, probs, tot = self.e.validate(progs, timeout=timeout)
        ids = {p["id"]: p for p in progs}
        self.cov["traces_validated_against_impl"] += tot.get("progs", 0)
        for k, v in tot.items(): self.tot[k] = self.tot.get(k, 0) + v
        hits = set()
        for m in mis:
            if known and any(fnmatch.fnmatchcase("%s/%s" % (m["op"], m["asp"]), k) for k in known):
                hits.add(m["asp"])
            elif self.wants(m):
                self.viol.append((ids.get(m["prog"], {"id": m["prog"], "ops": []}), m))
        for pid, k, kind, txt in probs:
            self.viol.append((ids[pid], {"prog": pid, "i": k, "op": "*", "asp": kind, "det": txt}))
        return hits

    def sample(self, progs, n=1):
        for p in progs[:n]:
            s = json.dumps(p["ops"])
            self.cov["samples"].append({"program": p["id"], "calls": p["ops"] if len(s) < 3000 else s[:3000] + "..."})

    def random_programs(self):
        for prof, nq, nt in self.c["rnd"]:
            ps = []
            for i in range(nq if self.quick else nt):
                rng = random.Random("%s/%d/%d" % (prof, self.seed, i))
                ps.append({"id": "%s-%d-%d" % (prof, self.seed, i), "ops": profiles.PROFILES[prof](rng, self.pools)})
            self.sample(ps)
            self.add("random:" + prof, ps)

    # ---- exhaustive sequences
    def sequences(self, name, depth=None, pr=None):
        a = alpha.A[name]
        f = self.e.path("alpha.json")
        dep, prn = a["quick"] if self.quick else a["thorough"]
        if pr: dep, prn = depth or pr, pr
        j = {"prefix": a["prefix"], "alpha": a["alpha"], "depth": dep, "print": prn}
        if a["words"]: j["words"] = a["words"]
        json.dump(j, open(f, "w"))
        rc, out = self.e.tlc("MCDoc.tla", "MCDoc.cfg", {"ALPHA": f}, workers=1 if self.quick else 4, mem="4g")
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        if rc != 0 or "Model checking completed. No error" not in out:
            k = out.find("Error:")
            raise ToolError("the model itself fails on alphabet %s:\n%s" % (name, out[k:k + 2500]))
        self.cov["transitions"] += int(m.group(1))
        self.cov["states"] += int(m.group(2))
        seqs = sorted(self.e.printed(out, "SEQ"))
        self.parts["model:" + name] = {"alphabet": len(a["alpha"]), "depth": dep, "states": int(m.group(2)), "sequences": len(seqs)}
        return seqs

    def program(self, name, seq):
        a = alpha.A[name]
        ops = copy.deepcopy(a["prefix"])
        stack = []
        for i in seq:
            o = copy.deepcopy(a["alpha"][i - 1])
            if o["op"] == "Rotate": stack.append("RotateReset")
            elif o["op"] == "Save": stack.append("Restore")
            elif o["op"] in ("RotateReset", "Restore") and stack: stack.pop()
            ops.append(o)
        suf = copy.deepcopy(a["suffix"])
        # what is still open is closed before the first output
        k = next((i for i, o in enumerate(suf) if o["op"] in ("Output", "AddPage")), len(suf))
        suf[k:k] = [alpha.op(s) for s in reversed(stack)]
        return ops + suf

    def model(self):
        names = [m for m in self.c["mc"]]
        with ThreadPoolExecutor(max(1, engine.CPUS // 2)) as ex:
            all_seqs = list(ex.map(lambda m: self.sequences(m[0]), names))
        for (name, nq, nt), seqs in zip(names, all_seqs):
            cap = nq if self.quick else nt
            full = len(seqs) <= cap
            if not full:
                # every pair of neighbouring calls is kept, the rest is drawn
                r = random.Random("%s/%d" % (name, self.seed))
                r.shuffle(seqs)
                seen, first, rest = set(), [], []
                for s in seqs:
                    ps = set(zip([0] + s, s)) - seen
                    if ps:
                        first.append(s)
                        seen |= ps
                    else: rest.append(s)
                seqs = (first + rest)[:cap]
            ps = [{"id": "%s:%s" % (name, ".".join(map(str, s))), "ops": self.program(name, s)} for s in seqs]
            self.sample(ps)
            self.parts["model:" + name]["replayed"] = len(ps)
            self.add("model:" + name, ps)

    def count(self, out, name):
        """counts of a TLC run of the model `name` that must have succeeded"""
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        if "Model checking completed. No error" not in out:
            k = out.find("Error:")
            raise ToolError("the model %s itself fails:\n%s" % (name, out[k:k + 2500]))
        self.cov["transitions"] += int(m.group(1))
        self.cov["states"] += int(m.group(2))
        return {"states": int(m.group(2)), "transitions": int(m.group(1))}

    def explore(self, module, j, name=None, workers=1):
        f = self.e.path("alpha.json")
        json.dump(j, open(f, "w"))
        rc, out = self.e.tlc(module + ".tla", module + ".cfg", {"ALPHA": f}, workers=workers, mem="4g")
        self.parts[name or module] = self.count(out, module)
        seqs = sorted(self.e.printed(out, "SEQ"))
        self.parts[name or module]["sequences"] = len(seqs)
        return seqs

    # ---- C34: all short texts over representatives of the classes of letters
    def x_mcarabic(self):
        r = self.rng
        D = [0x628, 0x62A, 0x62B, 0x62C, 0x62D, 0x62E, 0x633, 0x634, 0x635, 0x636, 0x637, 0x638, 0x639, 0x63A, 0x641, 0x642, 0x643, 0x645, 0x646, 0x64A, 0x626, 0x67E, 0x686, 0x6A9, 0x6AF, 0x6CC]
        R = [0x622, 0x624, 0x625, 0x629, 0x62F, 0x630, 0x631, 0x632, 0x648, 0x649, 0x698]
        M = [0x64B, 0x64C, 0x64D, 0x64E, 0x64F, 0x650, 0x652, 0x653, 0x654, 0x655, 0x656, 0x657, 0x658, 0x670]
        other = [32, 0x61, 0x31, 0x660, 0x60C, 0x28]
        sets = [[r.choice(D), 0x627, 0x644, 0x647, r.choice(R), 0x621, r.choice(M), 0x651, r.choice(other)],
                [0x644, 0x623, 0x627, r.choice(D), 0x640, r.choice(R), 32, r.choice(M)]]
        texts = []
        for i, a in enumerate(sets if self.quick else sets * 2):
            texts += self.explore("MCArabic", {"alpha": a, "depth": 4 if self.quick else 5}, "MCArabic %s" % " ".join("%04X" % c for c in a), workers=1 if self.quick else 4)
        # every pair of letters in every position
        L = D + R + [0x621, 0x623, 0x627, 0x640, 0x644, 0x647]
        for a in L:
            texts += [[a], [a] * 3] + [[a, b] for b in L] + [[0x628, a, b] for b in r.sample(L, 8)] + [[a, r.choice(M), b] for b in r.sample(L, 8)] + [[0x628, a, b, 0x628] for b in r.sample(L, 6)]
        texts.append([])
        r.shuffle(texts)
        ps = []
        for k in range(0, len(texts), 60):
            ps.append({"id": "arabic:%d" % (k // 60), "ops": [alpha.op("Start", unit=1, conv=0, named="A4", w=0, h=0, trim=[], prot=0, perm=0, user=[], owner=[])] +
                       [alpha.op("ToArabic", t=t) for t in texts[k:k + 60]]})
        self.sample(ps)
        self.add("model:MCArabic", ps)

    # ---- C30: every pair of a history and a program after starting again
    def x_restarts(self):
        one, two = self.sequences("documents"), self.sequences("second")
        r = self.rng
        pairs = [(a, r.choice(two)) for a in one] + [(r.choice(one), b) for b in two]
        r.shuffle(pairs)
        ps = []
        for a, b in pairs[:260 if self.quick else 6000]:
            first = self.program("documents", a)
            # the restarted document gets what a fresh one gets
            second = self.program("second", b)
            cut = next(i for i, o in enumerate(second) if o["op"] == "Output")
            second = second[:cut]
            if r.random() < .5: first = first[:-1]
            alone = [dict(o, d=1) for o in second]
            ps.append({"id": "restart:%s/%s" % (".".join(map(str, a)), ".".join(map(str, b))),
                       "ops": first + second + alone + [alpha.output(), dict(alpha.output(), d=1), {"op": "Same", "d": 0, "a": 0, "b": 1}]})
        self.sample(ps)
        self.add("model:restarts", ps)

    # ---- C31: interleavings of two documents
    def x_weave(self):
        r = self.rng
        cf = lambda cont, fam, file: {"op": "ContainerFont", "d": 0, "cont": cont, "fam": fam, "file": file, "style": 0, "kern": 1, "via": "data", "plain": 0, "cb": 0, "subst": -2}
        files = [("c1", gen.FONTS["lib"]), ("c2", gen.FONTS["ubu"])]
        ps = []
        for n in range(3 if self.quick else 12):
            def doc(cont, d):
                f = r.choice(files)
                o = [alpha.start(), alpha.PAGE, alpha.font(f[0], f[1], via="container", cont=cont, cb=0, subst=-2), alpha.sel(f[0])]
                o += [copy.deepcopy(x) for x in r.sample([alpha.text("A"), alpha.text("AV To"), alpha.cell("b"), alpha.image(), alpha.image("rgba.png"), alpha.rect(tr=alpha.tr(500)), alpha.op("SetTransparency", a=300, bm="/Hue"),
                      alpha.op("Measure", t=alpha.S("Wide")), alpha.op("AddCSRGB", name="Sp", r=10, g=20, b=30), alpha.op("Split", kind="plain", t=alpha.S("xyz w"), w=2000, brk=dict(alpha.NOBRK)), alpha.font("own", "lib"),
                      alpha.op("SetCompress", level=9), alpha.op("Output", via="bytes", light=1, secrets=[])], 3)]
                if r.random() < .3: o.append(alpha.text("\u00e9q"))
                return [dict(x, d=d) for x in o]
            A, B = doc("k1", 0), doc("k1", 1)
            head = [cf("k1", *f) for f in files]
            seqs = self.explore("MCWeave", {"head": head, "a": A, "b": B}, "MCWeave %d" % n)
            r.shuffle(seqs)
            alone = lambda X, d, k: [cf(k, *f) for f in files] + [dict(x, d=d, **({"cont": k} if x["op"] == "AddFont" and x["via"] == "container" else {})) for x in X]
            for s in seqs[:40 if self.quick else 500]:
                ia, ib, turns = iter(A), iter(B), []
                for t in s: turns.append(next(ia if t == 1 else ib))
                out = lambda d: dict(alpha.output(), d=d)
                ps.append({"id": "weave%d:%s" % (n, "".join(map(str, s))), "ops": head + copy.deepcopy(turns) + alone(A, 2, "k2") + alone(B, 3, "k3") +
                           [out(0), out(1), out(2), out(3), {"op": "Same", "d": 0, "a": 0, "b": 2}, {"op": "Same", "d": 0, "a": 1, "b": 3}]})
        self.sample(ps)
        self.add("model:MCWeave", ps)

    # ---- C31: documents built in parallel, under the race detector
    def x_parallel(self):
        h = self.e.harness
        race = self.e.build(race=True)
        self.e.harness = h
        sets = [profiles.parallel_set(random.Random("par/%d/%d" % (self.seed, i)), self.pools, 8 if self.quick else 16) for i in range(6 if self.quick else 60)]

        def one(i):
            ps = sets[i]
            pf, tf, tmp = self.e.path("par.json"), self.e.path("par.nd"), self.e.path("tmp")
            os.makedirs(tmp)
            open(pf, "w").write("".join(json.dumps(p) + "\n" for p in ps))
            r = subprocess.run([race, "parallel", "-prog", pf, "-out", tf, "-res", self.e.res, "-tmp", tmp], capture_output=True, text=True, errors="replace", timeout=600, env=dict(os.environ, GORACE="halt_on_error=0 exitcode=0"))
            bad = []
            prog = {"id": "parallel-%d-%d" % (self.seed, i), "ops": [{"program": p["id"], "ops": p["ops"]} for p in ps]}
            if "DATA RACE" in r.stderr:
                bad.append((prog, {"prog": prog["id"], "i": -1, "op": "*", "asp": "race", "det": r.stderr[r.stderr.find("WARNING: DATA RACE"):][:1500]}))
            elif r.returncode != 0:
                bad.append((prog, {"prog": prog["id"], "i": -1, "op": "*", "asp": "crash", "det": r.stderr[-1500:]}))
            if r.returncode == 0:
                mis, st = self.e.judge(tf)
                self.cov["traces_validated_against_impl"] += st.get("outs", 0)
                bad += [(prog, dict(m, prog=prog["id"])) for m in mis]
            return bad
        with ThreadPoolExecutor(4) as ex:
            for b in ex.map(one, range(len(sets))): self.viol += b
        self.parts["parallel"] = {"sets": len(sets), "documents": sum(len(s) - 1 for s in sets)}

    # ---- C11, C12, C15: all short texts, widths, heights and ways of breaking
    def texts(self, depth, exact=False, pairs=False):
        """a small alphabet with its facts: characters, font size, widths and heights around what they take, or (exact)
        widths and heights that are exactly what some texts take, with font sizes for which binary numbers are exact, or
        (pairs) characters that kern and widths between those with and without the kerning"""
        r = self.rng
        fname = gen.FONTS["ubu" if exact else r.choice(["lib", "ubu"])]
        ft = next(f for f in self.facts["fonts"] if f["name"] == fname)
        adv = {c: w * 1000 // ft["upem"] for c, g, w, h in ft["chars"]}
        al = [32, 10, 45, r.choice([105, 108, 46]), r.choice([87, 77]), r.choice([65, 84, 86, 0x4E2D])][:6]
        fs10 = r.choice([100, 120, 75])
        one = [adv.get(c, 500) * fs10 for c in al if c != 10]
        # between sums of advances, at a distance from all of them (so that the comparison is decided)
        widths = sorted(set([max(one) * k // 2 + 777 for k in (1, 2, 3, 5, 8)]))
        lh = (ft["asc"] - ft["desc"]) * fs10 * 1000 // ft["upem"]
        heights = [lh * k // 4 for k in (2, 5, 6, 9, 14, 30)]
        if pairs:
            of = {g: c for c, g, w, h in ft["chars"] if c in adv and 32 < c < 0x180}
            ks = [(of[l], of[q], k * 1000 // ft["upem"]) for l, qs in ft["kern"] for q, k in qs if l in of and q in of and abs(k) * 20 > ft["upem"]]
            ks = r.sample(ks, 2)
            al = sorted({c for k in ks for c in k[:2]} | {32, 97})
            widths = sorted({fs10 * (adv[a] + adv[b] + k // 2 + x) + 77 for a, b, k in ks for x in (0, adv[97], adv[a], 2 * adv[b])})
        if exact:
            fs10 = r.choice([2500, 5000, 10000])
            adv = [adv.get(c, 500) for c in al if c != 10]
            widths = sorted(set(fs10 * sum(r.choice(adv) for _ in range(k)) for k in (1, 2, 2, 3, 3, 4, 5)))
            lh = (ft["asc"] - ft["desc"]) * fs10
            heights = [lh * k for k in (1, 2, 3, 5)] + [lh * 2 - 2500]
        brks = [{"mode": 0, "ind": 0, "sep": []}, {"mode": 1, "ind": 32, "sep": []}, {"mode": 0, "ind": 0, "sep": [45]}, {"mode": 1, "ind": 32, "sep": [45]}, {"mode": 1, "ind": 45, "sep": [46, 46]}]
        seqs = self.explore("MCText", {"chars": al, "depth": depth, "font": fname, "fs10": fs10, "widths": widths, "heights": heights, "brks": brks}, "MCText %s %s" % (fname, al), workers=2 if self.quick else 8)
        f = next(k for k, v in gen.FONTS.items() if v == fname)
        return seqs, f, fs10, widths, heights, brks

    def x_mctext(self):
        r = self.rng
        split = self.id == "C11"
        for rep in range(3 if self.quick else 9):
            seqs, f, fs10, widths, heights, brks = self.texts(4 if rep % 3 == 0 or not self.quick else 3, rep % 3 == 1, rep % 3 == 2)
            # longer texts over the same characters
            al = sorted(set(c for s in seqs for c in s))
            seqs += [[r.choice(al) for _ in range(r.randint(5, 14))] for _ in range(300 if self.quick else 3000)]
            r.shuffle(seqs)
            ps = []
            B = lambda b: dict(b, has=1)
            for k in range(0, min(len(seqs), 480 if self.quick else 20000), 8):
                ops = [alpha.start(), alpha.PAGE, alpha.font("f", f, kern=(r.randrange(2), int(r.random() < .2), int(r.random() < .8))[rep % 3])] + [alpha.sel("f", size=fs10, ty="int" if fs10 % 10 == 0 else "float")]
                for t in seqs[k:k + 8]:
                    for _ in range(4 if split else 2):
                        w = r.choice(widths) // 100
                        b = r.choice(brks)
                        if split: ops.append(alpha.op("Split", kind=r.choice(["opt", "opt", "plain", "word"]), t=t, w=w, brk=B(b)))
                        else:
                            h = r.choice(heights) // 100
                            u = [c for c in t if c != 10]
                            q = r.random()
                            if q < .3: ops.append(alpha.op("IsFitNL", hasrect=1, w=w, h=h, t=t))
                            elif q < .8:
                                ops += [alpha.op("SetXY", x=r.randrange(0, 30000), y=r.randrange(0, 50000)), alpha.op("IsFit", hasrect=1, w=w, h=h, t=u), alpha.op("MultiCell", hasrect=1, w=w, h=h, t=u)]
                            elif u:
                                ops += [alpha.op("SetXY", x=r.randrange(0, 30000), y=r.randrange(0, 50000)), dict(alpha.cell("", w, h * 3, brk=B(b), align=r.choice([8, 10, 16, 18, 2, 72])), op="MultiCellOpt", t=t)]
                ops.append(alpha.output())
                ps.append({"id": "texts%d:%d" % (rep, k // 8), "ops": ops})
            self.sample(ps)
            self.add("model:MCText", ps)

    def x_mcwidth(self):
        r = self.rng
        seqs, f, fs10, widths, heights, brks = self.texts(3 if self.quick else 4)
        al = [c for c in sorted(set(c for s in seqs for c in s)) if c != 10]
        seqs = [[c for c in s if c != 10] for s in seqs] + [[r.choice(al) for _ in range(r.randint(4, 10))] for _ in range(100 if self.quick else 2000)]
        seqs = sorted(set(map(tuple, seqs)))
        r.shuffle(seqs)
        ps = []
        for k in range(0, min(len(seqs), 400 if self.quick else 6000), 8):
            ops = [alpha.start(), alpha.PAGE, alpha.font("f", f, kern=r.randrange(2)), alpha.sel("f", size=fs10, ty="int" if fs10 % 10 == 0 else "float")]
            if r.random() < .3: ops.append(alpha.op("SetCharSpacing", v=r.choice([100, 250, -50])))
            for t in seqs[k:k + 8]:
                t = list(t)
                ops += [alpha.op("SetXY", x=r.randrange(0, 30000), y=r.randrange(2000, 60000)), alpha.op("Measure", t=t)]
                if r.random() < .5: ops.append(alpha.op("Text", t=t))
                else: ops.append(dict(alpha.cell("", r.choice(widths) // 100 + 1000, 2000, align=r.choice([8, 2, 16]) | r.choice([0, 1, 4, 32]), float=r.choice([1, 2, 3])), t=t))
            ops.append(alpha.output())
            ps.append({"id": "widths:%d" % (k // 8), "ops": ops})
        self.sample(ps)
        self.add("model:MCText", ps)

    # ---- C05: sequences of reads, destinations, other outputs and changes
    def x_stream(self):
        r = self.rng
        al = [[0, 0], [0, 1], [0, 3], [0, 7], [1, 0], [2, 0], [3, 2], [4, 5], [5, 2], [6, 3], [7, 0], [8, 0], [9, 0]]
        self.explore("MCStream", {"alpha": al, "depth": 3 if self.quick else 4, "greedy": 0}, "MCStream results")
        seqs = self.explore("MCStream", {"alpha": al, "depth": 3 if self.quick else 4, "greedy": 1}, "MCStream sequences")
        r.shuffle(seqs)
        steps = []
        for s in seqs[:600 if self.quick else 20000]:
            x = []
            for i in s:
                k, m = al[i - 1]
                # sixths of the file, sometimes a few bytes more or less
                x.append([k, m if m < 7 else 1, 6 if m < 7 else 1, 0 if m == 0 else 10 if m == 7 else r.choice([0, 0, 1, -1, r.randrange(-9, 300)])])
            steps.append(x + [[0, 1, 1, r.choice([0, 1, -1, 5])], [0, 0, 1, 7], [0, 0, 1, 3]])
        for _ in range(100 if self.quick else 3000):
            steps.append([[k, r.randrange(7), 6, r.randrange(-20, 400)] for k in r.choices([0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9], k=r.randint(5, 12))])
        ps = []
        for k in range(0, len(steps), 6):
            ops = []
            g = profiles.some_doc(random.Random("stream/%d/%d" % (self.seed, k)), self.pools, 0, n=r.randint(0, 12))
            g = [o for o in g if o["op"] not in ("Rotate", "Save", "ClipPolygon", "RotateReset", "Restore")]
            for j, st in enumerate(steps[k:k + 6]):
                d, t = 2 * j, 2 * j + 1
                ops += profiles.renumber(g, d) + profiles.renumber(g, t) + [{"op": "Stream", "d": d, "twin": t, "steps": st}]
            ps.append({"id": "stream:%d" % (k // 6), "ops": ops})
        self.sample(ps)
        self.add("model:MCStream", ps)

    # ---- findings that are recorded and not repaired
    def x_findings(self):
        kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
        for f in kf["known"]:
            if f["property"] != self.id: continue
            hits = self.run([{"id": f["id"], "ops": f["probe"]}], known=f["expect"])
            if hits: self.known.append(f)

    # ---- result
    def finish(self):
        self.cov["states"] += self.e.states
        self.cov["transitions"] += self.e.transitions
        self.cov["parts"] = self.parts
        self.cov["totals"] = self.tot
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        groups = {}
        for p, m in self.viol: groups.setdefault(p["id"], (p, []))[1].append(m)
        lines = []
        for i, (pid, (p, ms)) in enumerate(sorted(groups.items(), key=lambda g: len(g[1][0]["ops"]))[:5]):
            path = os.path.join("evidence", "replay", "%s-%d.json" % (self.id, i + 1))
            json.dump({"property": self.id, "program": p, "mismatches": ms[:20]}, open(os.path.join(ROOT, path), "w"), indent=1)
            for m in ms[:3]: print("  %s: call %s (%s): %s: %s" % (pid, m.get("i"), m["op"], m["asp"], str(m["det"])[:600]))
            lines.append("VIOLATION property=%s replay=%s" % (self.id, path))
        for f in self.known: print("KNOWN-FINDING: property=%s %s" % (self.id, f["what"]))
        for l in lines: print(l)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov,
              "assumptions": ["the model (spec/*.tla) states the documented behaviour; TLC and the independent PDF reader of the harness are trusted",
                              "lengths are compared with the tolerance of the PDF number format (about 0.01 pt)"],
              "wall_s": round(time.time() - self.t0, 1), "violations": len(groups)}
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.id + ".json"), "w"), indent=1)
        print("%s %s: %d programs, %d calls, %d outputs, %d marks judged, %d states, %d transitions, %d violations, %.1f s" %
              (self.id, self.tier, self.cov["traces_validated_against_impl"], self.tot.get("ops", 0), self.tot.get("outs", 0), self.tot.get("marks", 0), self.cov["states"], self.cov["transitions"], len(groups), time.time() - self.t0))
        return 1 if groups else 0

    def main(self):
        try:
            self.setup()
            self.model()
            self.random_programs()
            for x in self.c["extra"]:
                getattr(self, "x_" + x)()
            self.drain()
            return self.finish()
        except Exception as ex:
            # violations found before stand
            traceback.print_exc()
            if self.viol:
                try: return self.finish()
                except Exception: traceback.print_exc()
            print("no answer: %s" % str(ex)[:500])
            return 2
        finally:
            self.e.close()


if __name__ == "__main__":
    sys.exit(Check(sys.argv[1]).main())
