#!/usr/bin/env python3
import sys, random, json
sys.path.insert(0, "/verif/bin")
import dev, engine, profiles
prof, seed, i = sys.argv[1].split("-")
show = len(sys.argv) > 2
sys.argv[1:] = [prof, "1", seed]
e = engine.Engine()
try:
    pools = dev.setup(e)
    ops = profiles.PROFILES[prof](random.Random("%s/%s/%s" % (prof, seed, i)), pools)
    for k, o in enumerate(ops): print(k, json.dumps({a: b for a, b in o.items() if a != 'd'}))
    if show:
        tf, pr = e.execute([{"id": "x", "ops": ops}])
        for l in open(tf):
            r = json.loads(l)
            if 'obs' in r: print(r.get('i'), r['op'], json.dumps(r['obs']))
        mis, st = e.judge(tf)
        for m in mis: print(m)
finally: e.close()
