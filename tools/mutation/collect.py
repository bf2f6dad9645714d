#!/usr/bin/env python3
"""collect.py DIR: writes the programs of all quick checks (programs.json: {check: [ids]}, progs: {id: ops}) and their sources to DIR"""
import json, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "bin"))
sys.dont_write_bytecode = True
import checks, engine, check
D = sys.argv[1]
os.makedirs(D, exist_ok=True)
E = engine.Engine()
engine.Engine = lambda: E
E.build()
facts, pools = check.sources(E, 1, 6, 40)
by, progs = {}, {}
for id in checks.C:
    c = check.Check(id)
    c.facts, c.pools = facts, pools
    c.model()
    c.random_programs()
    for x in c.c["extra"]:
        if x not in ("parallel", "findings"): getattr(c, "x_" + x)()
    by[id] = sorted({p["id"] for p in c.queue})
    for p in c.queue:
        if p["id"] in progs and progs[p["id"]] != p["ops"]:   # drawn anew by another check
            q = id + "/" + p["id"]
            by[id][by[id].index(p["id"])] = q
            progs[q] = p["ops"]
        else: progs[p["id"]] = p["ops"]
    print(id, len(by[id]), flush=True)
shutil.rmtree(os.path.join(D, "res"), ignore_errors=True)
shutil.copytree(E.res, os.path.join(D, "res"))
shutil.copy(E.facts_file, os.path.join(D, "facts.nd"))
json.dump({"by": by, "progs": progs}, open(os.path.join(D, "programs.json"), "w"))
print(len(progs), sum(map(len, progs.values())))
E.close()
