#!/usr/bin/env python3
"""run.py check <property>     run the check of one property (tier and seed from VERIF_TIER / VERIF_SEED)
   run.py setup                build everything
   run.py replay <file>        re-execute a saved failing case"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF


def props():
    return {os.path.basename(f)[:3]: os.path.basename(f)[:-4] for f in sorted(glob.glob(os.path.join(VERIF, "harness", "[A-Z][0-9][0-9]_*.cpp")))}


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def write_evidence(pid, tier, seed, r, wall, nviol, extra):
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": dict({
            "evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": r["rule"],
            "nontrivial": r["nontrivial"], "discarded": r["discarded"], "requested_cases": r["requested"],
            "per_subcheck": r["subs"], "classes": r["labels"], "samples": r["samples"][:24],
        }, **extra),
        "assumptions": r["assumptions"], "wall_s": round(wall, 2), "violations": nviol,
    }
    while len(json.dumps(ev)) > 60000 and len(ev["coverage"]["samples"]) > 2:
        ev["coverage"]["samples"].pop()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def borrowed(pid):
    """Harnesses whose cases this property's check runs again in leak mode: {property: cases} from a line '// leaks: <cases quick> <cases thorough> <property>...'."""
    m = re.search(r"^// leaks: (\d+) (\d+) (.*)$", open(os.path.join(VERIF, "harness", props()[pid] + ".cpp")).read(), re.M)
    return (int(m.group(1)), int(m.group(2)), m.group(3).split()) if m else (0, 0, [])


def replay(path, exe=None, quiet=False):
    d = json.load(open(path))
    if d.get("leak_mode_of"):
        os.environ["PBT_LEAKS"] = "1"
        d = dict(d, property=d["leak_mode_of"])
    if exe is None:
        exe = B.build_any([props()[d["property"]]])[props()[d["property"]]]
    with tempfile.TemporaryDirectory(prefix="verif.") as work:
        if d.get("history"):
            h = d["history"]
            cmd = [exe, "history", "--work", work, "--seed", str(d["seed"]), "--first", str(h[0]), "--last", str(h[1]), "--stride", str(h[2]), "--only", d.get("only", "")]
        else:
            ch = os.path.join(work, "choices")
            open(ch, "w").write(" ".join(map(str, d["choices"])))
            cmd = [exe, "replay", "--work", work, "--sub", d["sub"], "--file", ch]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, errors="replace")
        if not quiet:
            print(p.stdout)
        return p.returncode


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    name = props()[pid]
    exe = B.build_any([name])[name]
    tb = time.time() - t0
    with tempfile.TemporaryDirectory(prefix="verif.") as work:
        out = os.path.join(work, "result.json")
        cmd = [exe, "run", "--tier", tier, "--seed", str(seed), "--work", work, "--out", out] + sys.argv[3:]
        p = subprocess.run(cmd, stderr=subprocess.PIPE, text=True, errors="replace")
        if p.returncode != 0 or not os.path.exists(out):
            print("harness error: rc=%s %s" % (p.returncode, p.stderr[-2000:]))
            return 3
        r = json.load(open(out))
    v = r["violation"]
    lq, lt, others = borrowed(pid)
    reruns = {}
    if not v and others and len(sys.argv) == 3:
        exes = B.build_any([props()[o] for o in others])
        for o in others:
            with tempfile.TemporaryDirectory(prefix="verif.") as work:
                out = os.path.join(work, "result.json")
                cmd = [exes[props()[o]], "run", "--tier", tier, "--seed", str(seed), "--work", work, "--out", out, "--cases", str(lt if tier == "thorough" else lq)]
                p = subprocess.run(cmd, stderr=subprocess.PIPE, text=True, errors="replace", env=dict(os.environ, PBT_LEAKS="1"))
                if p.returncode != 0 or not os.path.exists(out):
                    print("note: leak mode of %s gave no result" % o)
                    continue
                q = json.load(open(out))
            w = q["violation"]
            reruns[o] = {"evaluations": q["evaluations"], "nontrivial": q["nontrivial"]}
            r["evaluations"] += q["evaluations"]
            r["nontrivial"] += q["nontrivial"]
            r["discarded"] += q["discarded"]
            r["distinct_nontrivial"] += q["distinct_nontrivial"]
            r["samples"] += q["samples"][:1]
            r["wall_s"] += q["wall_s"]
            if w and w["label"] == "leak" and w["confirmed"] == 3:
                v = dict(w, leak_mode_of=o)
                break
            if w:
                print("note: leak mode of %s: %s (judged by %s)" % (o, w["label"], o))
    listed = [k for k in known() if k.get("property") == pid and k.get("status") == "known"]
    nviol = 0
    rc = 0
    # Known findings: each is a saved case of its own; it is re-executed, never searched for.
    for k in listed:
        f = os.path.join(VERIF, k["replay"])
        if replay(f, exe, quiet=True) == 1:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            print("note: listed finding no longer reproduces: %s" % k["what"])
    if v:
        if v["confirmed"] == 3:
            nviol, rc = 1, 1
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s%s-%s.json" % (pid, v.get("leak_mode_of", ""), v["sub"], re.sub(r"[^A-Za-z0-9_-]+", "_", v["label"])[:40]))
            with open(path, "w") as f:
                json.dump(dict({"property": pid}, **v), f, indent=1)
            print("sub-check: %s\nlabel: %s\nmessage: %s\ncase: %s" % (v["sub"], v["label"], v["message"], v["case"][:3000]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        else:
            print("inconclusive: a failure of %s/%s did not reproduce (%s of 3 replays)" % (v["sub"], v["label"], v["confirmed"]))
    write_evidence(pid, tier, seed, r, time.time() - t0, nviol, {"build_s": round(tb, 2), "search_s": round(r["wall_s"], 2), "known_findings": [k["what"] for k in listed], **({"leak_mode": reruns} if reruns else {})})
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, build %.1fs, search %.1fs" %
          (pid, tier, seed, r["evaluations"], r["distinct_nontrivial"], r["discarded"], tb, r["wall_s"]))
    return rc


def main():
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    if sys.argv[1] == "setup":
        B.build_any(list(props().values()))
        return 0
    if sys.argv[1] == "check":
        return check(sys.argv[2])
    if sys.argv[1] == "replay":
        return 1 if replay(sys.argv[2]) == 1 else 0
    sys.exit(__doc__)


try:
    sys.exit(main())
except B.BuildError as e:
    print("BUILD ERROR: %s" % e)
    sys.exit(4)
