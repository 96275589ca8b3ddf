#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.md, the harness headers, the evidence files and tools/seed/results.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
T = open(V + "/tools/design.md").read()
def section(i):
    out, mode, asm = [], "", []
    ev = V + "/evidence/%s.json" % i
    e = json.load(open(ev)) if os.path.exists(ev) else None
    files = glob.glob(V + "/harness/" + i + ".cpp") + glob.glob(V + "/harness/" + i + "_*.cpp")
    rows = []
    for f in sorted(files):
        for l in open(f):
            if not l.startswith("// symx:"): continue
            if l.startswith("// symx: harness"):
                n = l.split()[3]
                b = re.search(r'bounds="([^"]*)"', l)
                body = open(f).read()
                t = re.search(r"SYMX_HARNESS\(%s,[^;]*?(BOTH|QUICK|THOROUGH)" % n, body)
                rows.append((n, b.group(1) if b else "", {"THOROUGH": " *(thorough)*", "QUICK": " *(quick)*"}.get(t.group(1), "") if t else ""))
            else:
                mode = "Mode A." if "include=abs" in l else "Mode R." if "DOMAIN" in l else mode
    if not files and e: rows = [(h, b, "") for h, b in e["coverage"]["bounds"].items()]
    s = "*%s*. %s%s\n" % (props[i]["title"], mode + " " if mode else "", "Bounds:")
    for n, b, t in rows: s += "- `%s`%s: %s\n" % (n, t, b)
    if e and e["tier"] == "quick":
        c = e["coverage"]
        s += "- cost: %.0f s; %d queries, %d path models replayed natively\n" % (e["wall_s"], c["queries"], c["traces_validated_against_impl"])
    return s
kf = json.load(open(V + "/known_findings.json"))
T = re.sub(r"\{\{(P\d\d)\}\}", lambda m: section(m.group(1)), T)
T = T.replace("{{FIXED}}", "\n".join("- %s (%s, `%s`): %s" % (f["id"], f["property"], f["commit"], re.sub(r"^fixed: property=\S+ \S+ ", "", f["what"])) for f in kf if f["status"] == "fixed"))
T = T.replace("{{OPEN}}", "\n".join("- %s (%s): %s" % (f["id"], f["property"], f["what"]) for f in kf if f["status"] == "open"))
res = V + "/tools/seed/results.json"
r = json.load(open(res)) if os.path.exists(res) else {}
L = ["| bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]; m = json.load(open(d))
    L.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], r.get(i, "not yet run")))
T = T.replace("{{SEEDS}}", "\n".join(L))
open(V + "/DESIGN.md", "w").write(T)
print(len(T), "characters")
