#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                observe_at=observe or [], hook_needed=None)), note))


exec(open(os.path.join(V, "meta", "properties.py")).read())

DONE = {os.path.basename(f)[:3] for f in glob.glob(os.path.join(V, "harness", "[A-Z][0-9][0-9]_*.cpp"))}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, note in P:
    if p["id"] in DONE:
        c = "python3 engine/run.py check " + p["id"]
        checks.append(dict(property=p["id"], quick_cmd=c, thorough_cmd="VERIF_TIER=thorough " + c, evidence_file="evidence/%s.json" % p["id"],
                           technique=note[0], level="exploration", level_note=note[1]))
    else:
        na.append(dict(property=p["id"], reason=note[2] if len(note) > 2 else "no check has been built for it yet"))
json.dump(dict(version=1, setup_cmd="python3 engine/run.py setup", checks=checks, not_applicable=na,
               notes="All checks share engine/ (generator, shrinker, incremental build of /repo with ASan+UBSan). No hooks are needed in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
