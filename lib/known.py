"""Known findings: genuine defects that are recorded, not repaired (known-findings.json)."""
import json
import os

import build

FILE = os.path.join(build.VERIF, "known-findings.json")


def load(prop):
    with open(FILE) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop]


def report(ctx):
    for x in load(ctx.prop):
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, x["what"]))
