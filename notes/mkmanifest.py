#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: the claimed checks, and why the rest is not claimed."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = "TLA+ specification (%s), checked with TLC; recorded runs of the real programs validated against it by TLC"
CLAIMS = {
    "P01": ("Toss.tla, Flood.tla, TossTrace.tla, FloodTrace.tla",
            "exhaustive on a small universe of links (MCToss), random installations and networks beyond it"),
    "P02": ("Toss.tla, Flood.tla, FloodTrace.tla, TossTrace.tla",
            "all topologies of 4 (thorough: 5) systems in the model; real networks of up to 8 systems"),
    "P03": ("Toss.tla, TossTrace.tla, PacketTrace.tla",
            "every truncation point of sampled packets; sampled message contents"),
    "P04": ("Toss.tla, TossTrace.tla", "exhaustive on a small universe in the model; sampled configurations and messages against the program"),
    "P05": ("Toss.tla, TossTrace.tla", "histories of several runs, expiries and thousands of entries; sampled"),
}
exec(open(os.path.join(V, "notes", "claims.py")).read()) if os.path.exists(os.path.join(V, "notes", "claims.py")) else None
NA = {}
m = dict(version=1, setup_cmd="python3 harness/build.py",
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CLAIMS:
        mod, note = CLAIMS[i]
        m["checks"].append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                                technique=T % mod, level="model_checking", level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet; nothing is claimed")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
