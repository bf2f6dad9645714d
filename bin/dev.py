#!/usr/bin/env python3
import sys, random, json, collections, time
sys.path.insert(0, "/verif/bin")
import engine, gen, profiles
def setup(e):
    e.build()
    import check
    return check.sources(e, int(sys.argv[3]), 8, 24, 60)[1]
if __name__ == "__main__":
    prof, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    e = engine.Engine()
    try:
        pools = setup(e)
        ps = []
        for i in range(n):
            rng = random.Random("%s/%d/%d" % (prof, seed, i))
            ps.append({"id": "%s-%d-%d" % (prof, seed, i), "ops": profiles.PROFILES[prof](rng, pools)})
        t = time.time()
        mis, probs, tot = e.validate(ps)
        print("time", time.time() - t, tot)
        for p in probs: print("PROBLEM", p)
        c = collections.Counter((m["op"], m["asp"]) for m in mis)
        for k, v in c.most_common(): print(v, k)
        seen = collections.Counter()
        for m in mis:
            k = (m["op"], m["asp"]); seen[k] += 1
            if seen[k] <= 2: print(m["prog"], m["i"], m["op"], m["asp"], m["det"][:900])
        json.dump({p["id"]: p["ops"] for p in ps}, open("/tmp/devprogs.json", "w"))
    finally:
        e.close()
