#!/usr/bin/env python3
"""seed.py make [ids]: (re)writes /verif/seeded from specs.py; seed.py test [ids]: tries demos (and
checks, with --check) on a scratch copy of /repo with and without each change."""
import json, os, re, shutil, subprocess, sys, time
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H)); S = V + "/seeded"
sys.path.insert(0, H)
from specs import SPECS
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
PY = """import importlib.util
spec = importlib.util.spec_from_file_location("problem", "symbolic/problem.py")
M = importlib.util.module_from_spec(spec)
spec.loader.exec_module(M)
"""
RES = H + "/results.json"
def record(i, pid, r):
    d = json.load(open(RES)) if os.path.exists(RES) else {}
    d[i] = r
    json.dump(dict(sorted(d.items())), open(RES, "w"), indent=1)
def make(i, s):
    d = f"{S}/{i}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = "/tmp/seedwork/" + i; shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/seedwork", exist_ok=True)
    sh(["git", "clone", "-q", "/repo", w])
    for f, old, new in s["edits"]:
        t = open(f"{w}/{f}").read()
        assert t.count(old) == 1, (i, f, t.count(old), old)
        open(f"{w}/{f}", "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    shutil.rmtree(w)
    if "py" in s:
        open(d + "/demo.py", "w").write(PY + s["py"].strip("\n") + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 60 python3 -B "$(dirname "$0")/demo.py"\n'); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        return
    shutil.copytree(V + "/shim", d + "/shim"); shutil.copy(H + "/demo.h", d); shutil.copy(H + "/demo.sh", d); os.chmod(d + "/demo.sh", 0o755)
    for n, t in s.get("files", {}).items(): open(d + "/" + n, "w").write(t)
    open(d + "/demo.cpp", "w").write('#include "demo.h"\n' + s.get("pre", "") + "int main() {\n" + s["demo"].strip("\n") + '\n  if (!fails) std::printf("ok\\n");\n  return fails ? 1 : 0;\n}\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def test(i, s, check):
    w = "/tmp/seedwork/" + i; shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/seedwork", exist_ok=True)
    sh(["git", "clone", "-q", "/repo", w])
    a = sh([f"{S}/{i}/demo.sh"], cwd="/repo")
    p = sh(["git", "-C", w, "apply", f"{S}/{i}/patch.diff"])
    b = sh([f"{S}/{i}/demo.sh"], cwd=w)
    r = f"{i} {s['property']}: demo unchanged={a.returncode} patched={b.returncode} apply={p.returncode}"
    if a.returncode or not b.returncode or b.returncode == 3: r += "  BAD\n" + a.stdout[-1500:] + "----\n" + b.stdout[-1500:]
    if check:
        e = dict(os.environ, SYMX_REPO=w)
        props = s.get("also", []) + [s["property"]] if check == "all" else [s["property"]]
        for pid in props:
            t0 = time.time(); c = sh(["python3", V + "/run.py", "check", pid], env=e)
            r += f"\n   {pid}: exit {c.returncode} in {time.time()-t0:.0f}s " + ("CAUGHT" if c.returncode == 1 and f"VIOLATION property={pid}" in c.stdout else "MISSED") + "  " + "; ".join(sorted(set(re.findall(r"violated: (.*)", c.stdout))))[:200]
            why = sorted(set(re.findall(r"violated: (.*)", c.stdout)))
            record(i, pid, (f"{pid} `{why[0][:90]}`" if why else pid) if "CAUGHT" in r.split("\n")[-1] else "missed by " + pid)
    shutil.rmtree(w)
    print(r, flush=True)
ids = [a for a in sys.argv[2:] if not a.startswith("--")] or sorted(SPECS)
for i in ids:
    if sys.argv[1] == "make": make(i, SPECS[i])
    else: test(i, SPECS[i], "--check" in sys.argv)
