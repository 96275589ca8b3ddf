#!/usr/bin/env python3
"""mut.py FILE [ids]: tries each change of FILE (a list of (id, properties, [(file, old, new)...])) against the
named checks on a scratch copy of /repo and prints caught/MISSED (no demonstrations: a first sieve)."""
import os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ns = {}; exec(open(sys.argv[1]).read(), ns)
ids = sys.argv[2:]
for i, props, edits in ns["M"]:
    if ids and i not in ids: continue
    w = "/tmp/mutwork/" + i; shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/mutwork", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    bad = False
    for f, old, new in edits:
        t = open(f"{w}/{f}").read()
        if t.count(old) < 1: print(i, "NO MATCH", f, old[:60]); bad = True; break
        open(f"{w}/{f}", "w").write(t.replace(old, new, 1) if not old.startswith("\0") else t)
    if not bad:
        for p in props.split():
            t0 = time.time()
            c = subprocess.run(["python3", V + "/run.py", "check", p], env=dict(os.environ, SYMX_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ok = c.returncode == 1 and f"VIOLATION property={p}" in c.stdout
            print(f"{i:28s} {p} exit {c.returncode} {time.time()-t0:4.0f}s", "caught" if ok else "MISSED", "; ".join(sorted(set(re.findall(r"violated: (.*)", c.stdout))))[:110] if ok else ("" if c.returncode == 0 else c.stdout[-400:]), flush=True)
    shutil.rmtree(w)
