#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the notes below, evidence/*.json (rules), known_findings.json and seeded/*."""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {}


def note(id, oracle, beyond, *obs):
    N[id] = (oracle, beyond, obs)


exec(open(os.path.join(V, "meta", "design_notes.py")).read())
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
K = json.load(open(V + "/known_findings.json"))
S = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); S.setdefault(m["property"], []).append((f.split("/")[-2], m))
o = open(V + "/meta/design_head.md").read().rstrip() + "\n\n## Per property\n"
for p in P:
    i = p["id"]; e = json.load(open(V + "/evidence/%s.json" % i)); c = e.get("coverage", e)
    o += "\n### %s %s\n" % (i, p["title"])
    if i in N: o += "Oracle: %s  \nWhy beyond the tests: %s\n" % (N[i][0], N[i][1])
    rule = c.get("nontrivial_rule") or c.get("rule") or c.get("rules") or ""
    o += "Generated, and what counts as non-trivial: %s\n" % rule
    a = e.get("assumptions") or c.get("assumptions") or []
    if a: o += "Assumptions and bounds: %s.\n" % "; ".join(a)
    fx = [k for k in K if k["property"] == i and k["status"] == "fixed"]; kn = [k for k in K if k["property"] == i and k["status"] == "known"]
    if fx: o += "Defects found and repaired: %s.\n" % "; ".join("%s (`%s`)" % (k.get("what_failed") or k["what"].split(" ", 3)[-1], k["commit"][:7]) for k in fx)
    for k in kn: o += "Known finding, not repaired: %s\n" % k["what"]
    for x in (N[i][2] if i in N else ()): o += "* %s\n" % x
    if i in S: o += "Planted bugs, all caught by this check: %s.\n" % "; ".join("`%s` (%s)" % (d, m["needs"]) for d, m in S[i])
open(V + "/DESIGN.md", "w").write(o)
