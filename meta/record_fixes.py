#!/usr/bin/env python3
"""record_fixes.py <property>: lists every fix: commit of /repo that known_findings.json lacks as fixed for that property."""
import json, subprocess, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
have = {x.get('commit') for x in k}
for l in reversed(subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '--grep=^fix:']).decode().splitlines()):
    h, m = l.split(' ', 1)
    if h[:7] in have or (sys.argv[2:] and h[:7] not in sys.argv[2:]): continue
    k.append({"property": sys.argv[1], "status": "fixed", "commit": h[:7], "what": "fixed: property=%s %s %s" % (sys.argv[1], h[:7], m[5:])})
open(p, 'w').write("[\n" + ",\n".join("  " + json.dumps(x) for x in k) + "\n]\n")
