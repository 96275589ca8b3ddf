#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the harnesses present."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
PENDING = "no check built for it"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    cpp = glob.glob(V + "/harness/" + i + ".cpp") + glob.glob(V + "/harness/" + i + "_*.cpp")
    py = glob.glob(V + "/pysym/" + i + ".py")
    if i in NA or not (cpp or py):
        na.append({"property": i, "reason": NA.get(i, PENDING)})
        continue
    tech = ("symbolic execution of the real code's LLVM IR (own engine symx) with Z3 deciding every branch and assertion over all symbolic values within the bounds"
            if cpp else "symbolic execution of the real Python code (string variables), with Z3 deciding every branch and assertion within the bounds")
    note = ""
    b = []
    for f in cpp:
        for l in open(f):
            if l.startswith("// symx: harness"):
                n = l.split()[3]
                q = l.split('bounds="')[1].split('"')[0] if 'bounds="' in l else ""
                b.append(n + ": " + q)
    note = "Bounded: " + ("; ".join(b) if b else "see DESIGN.md and the evidence file")
    checks.append({"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i,
                   "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking", "level_note": note[:1500]})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "Every check recompiles /repo's current sources to LLVM IR (or re-reads the Python source), executes them symbolically and replays any counterexample against a native build of the same sources before reporting it. No hooks in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "not applicable:", [x["property"] for x in na])
