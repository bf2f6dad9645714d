#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/checks.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
X = {"mctext": "MCText explores every small text, width and break mode", "mcwidth": "MCText explores the measuring of every small text",
     "mcarabic": "MCArabic explores every short text over classes of letters", "stream": "MCStream explores every sequence of reads and failure points",
     "weave": "MCWeave explores the interleavings of two documents", "parallel": "parallel runs of the real code under the race detector are compared with sequential ones",
     "restarts": "sequences before a restart are followed by sequences after it", "findings": "recorded findings are probed"}
out = []
for p in props:
    c = checks.C[p["id"]]
    mc = [m[0] for m in c["mc"]]
    parts = []
    if mc: parts.append("TLC explores every call sequence over the alphabets %s in MCDoc and checks the model's invariants and action properties on them; the sequences are replayed on the real code" % ", ".join(mc))
    for x in c["extra"]: parts.append(X[x])
    parts.append("random programs (%s) are run on the real code; TLC checks every recorded call and everything read back from every output against the specification (DocTrace)" % ", ".join(r[0] for r in c["rnd"]))
    out.append({"property": p["id"], "quick_cmd": "python3 bin/check.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": "TLA+ specification, TLC model checking and trace validation against the real code",
                "level": "model_checking",
                "level_note": "; ".join(parts) + ". Bounded by the alphabets, the depth and the programs drawn; trusts TLC, the specification and the harness's own PDF reader; geometry is compared within the precision of the PDF's numbers."})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": out, "not_applicable": [],
     "notes": "All checks use the public API only, no hooks. They build the harness from /repo's working tree into a temporary directory. See DESIGN.md."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
