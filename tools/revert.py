#!/usr/bin/env python3
"""For each `fixed:` entry of known_findings.txt: takes the fix out again in a scratch copy and runs the named quick check.

usage: revert.py [COMMIT-PREFIX...]
"""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
d = tempfile.mkdtemp(prefix="revert.")
try:
    for l in open(V + "/known_findings.txt"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if not m or want and not any(m[2].startswith(w) for w in want): continue
        cid, c, what = m.groups()
        t = d + "/t"
        shutil.rmtree(t, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", t], check=True)
        p = subprocess.run(["git", "-C", t, "show", c, "--", "rpp"], capture_output=True).stdout
        if subprocess.run(["git", "-C", t, "apply", "-R", "--3way", "-"], input=p, capture_output=True).returncode:
            print(f"CONFLICT {cid} {c} {what}", flush=True)
            continue
        r = subprocess.run(["python3", V + "/check.py", cid, "quick"], env=dict(os.environ, RPP_REPO=t, PBT_NOSHRINK="1"), capture_output=True, text=True)
        o = r.stdout + r.stderr
        v = "reported" if r.returncode == 1 and "VIOLATION" in o else "does not build" if "does not build" in o else f"MISSED rc={r.returncode}"
        print(f"{v:15} {cid} {c} {what}", flush=True)
finally:
    shutil.rmtree(d)
