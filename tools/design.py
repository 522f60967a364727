"""Makes DESIGN.md out of design_head.md, the properties, the list of repairs,
the planted bugs and design_tail.md."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def path(*a):
    return os.path.join(V, *a)


P = [json.loads(l) for l in open(path("properties.jsonl"))]
M = {c["property"]: c for c in json.load(open(path("MANIFEST.json")))["checks"]}
cost = json.load(open(path("tools", "cost.json")))
K = json.load(open(path("known_findings.json")))
out = [open(path("tools", "design_head.md")).read().rstrip(), "",
       "## The properties", "",
       "For each: what is generated and what counts as non-trivial, against which oracle, within what bounds, and why "
       "that reaches what the tests cannot. The costs are those of this sandbox (8 cores).", ""]
for p in P:
    t = open(path("checks", p["id"]+".py")).read()
    rule = " ".join(" ".join(re.findall(r'"([^"]*)"', re.search(r"RULE = \((.*?)\)\n", t, re.S).group(1))).split())
    m = M[p["id"]]
    subs = re.findall(r'Sub\("(\w+)",.*?, (\d+), (\d+)(?:, [a-z=0-9]+)?\)', t)
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
            "- Generated: "+rule,
            "- Oracle: "+m["technique"].split(": ", 1)[1]+".",
            "- Bounds: "+m["level_note"],
            "- Cases: "+", ".join("`%s` %s quick / %s thorough" % s for s in subs)
            + ". Cost: "+cost.get(p["id"], "not measured")+".",
            "- Why not tests: "+p["why_tests_cant"], ""]
out += ["## Defects found by the checks and repaired", "",
        "Each was reported by the check of the property named, on the tree as it was then, and is one commit in /repo. "
        "A fixed entry suppresses nothing.", ""]
out += ["- "+f.replace("fixed: property=", "") for f in K["fixed"]]
out += ["", "## Known findings (not repaired)", ""]
for f in K["findings"]:
    out += ["- %s (%s), %s: %s. Input: %s." % (f["id"], f["property"], f["site"], f["what"], f["input"])]
out += ["", open(path("tools", "design_tail.md")).read().rstrip(), "",
        "## Planted bugs", "",
        "All pass the stable tests. Each is caught by the quick check of its property (last verified with seed 1 on the "
        "whole set); what it needs in order to show is in the last column.", "",
        "| planted bug | caught by | needs |", "|---|---|---|"]
for s in sorted(os.listdir(path("seeded"))):
    m = json.load(open(path("seeded", s, "meta.json")))
    out.append("| %s | %s | %s |" % (s, m["property"], m["needs"]))
open(path("DESIGN.md"), "w").write("\n".join(out)+"\n")
