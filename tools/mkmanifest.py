#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
TRACE = "behaviours generated from the specification (TLC enumerates every program of Enumerate.tla's scope, every history of Lifecycle.tla) replayed into the real library, and seeded API programs executed in the real library, every recorded step checked by TLC against the TLA+ state machine EAntic.tla"
NOTE = "Every recorded call of the generated programs is decided exactly by the specification (exact integers, Sturm counts, root bisection in TLA+); the small scopes of Enumerate.tla and Lifecycle.tla are covered completely, larger programs are sampled, edge-biased and seeded. Trusts TLC, the BigInteger overrides of BigInt.tla, the driver's reports, and the C++ compiler. "
X = {}
exec(open(os.path.join(V, "tools", "manifest_notes.py")).read())
NA = globals().get("NA", {})
m = {
    "version": 1,
    "setup_cmd": "python3 lib/build.py plain",
    "checks": [
        {"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
         "evidence_file": "evidence/%s.json" % p, "technique": X.get(p, {}).get("technique", TRACE), "level": "model_checking",
         "level_note": NOTE + X.get(p, {}).get("note", "")} for p in ids if p not in NA],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
    "notes": "TLA+ checked with TLC; see DESIGN.md. No hooks in /repo: the checks compile /repo's sources with build files of their own.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
