#!/usr/bin/env python3
"""cover.py [Pxx...]: runs the quick checks with block coverage switched on and lists the lines of /repo's sources that
have code but that no harness executes (a debugging aid for finding gaps; no check uses it)."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
W = "/tmp/cov"; os.makedirs(W, exist_ok=True)
have, hit = set(), {}
for p in ids:
    if p in ("P36", "P37"): continue
    m = f"{W}/{p}"
    if not os.path.exists(m + ".done"):
        for f in (m, m + ".table"):
            if os.path.exists(f): os.unlink(f)
        r = subprocess.run(["python3", V + "/run.py", "check", p], env=dict(os.environ, SYMX_BUILD="/tmp/covb", SYMX_COVER=m), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(p, r.returncode, r.stdout.strip().split("\n")[-1], flush=True)
        open(m + ".done", "w")
        subprocess.run("rm -rf /tmp/covb/prog", shell=True)
    d = open(m, "rb").read()
    for i, l in enumerate(open(m + ".table")):
        for x in l.split():
            if "/repo/" in x:
                have.add(x)
                if d[i]: hit.setdefault(x, []).append(p)
miss = {}
for x in have:
    if x not in hit: f, n = x.rsplit(":", 1); miss.setdefault(os.path.normpath(f), set()).add(int(n))
for f in sorted(miss):
    src = open(f).read().split("\n")
    print("==", f)
    for n in sorted(miss[f]): print("%5d %s" % (n, src[n - 1]))
