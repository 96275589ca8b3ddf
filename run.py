#!/usr/bin/env python3
"""Driver of the symbolic-execution checks (see DESIGN.md).

  run.py setup                 build the engine
  run.py check ID [--tier T]   decide one property on /repo's current tree
  run.py list                  list harnesses
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shlex
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("SYMX_REPO", "/repo")
B = os.environ.get("SYMX_BUILD", V + "/build")
JOBS = int(os.environ.get("SYMX_JOBS", "8"))
CXX_IR = ["clang++", "-std=c++17", "-O1", "-gline-tables-only", "-DNDEBUG", "-DDOCTEST_CONFIG_DISABLE",
          "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w"]
CXX_NATIVE = ["g++", "-std=c++17", "-O2", "-DNDEBUG", "-DDOCTEST_CONFIG_DISABLE", "-w"]
CXX_ASAN = ["clang++", "-std=c++17", "-O1", "-g", "-DNDEBUG", "-DDOCTEST_CONFIG_DISABLE", "-w", "-fsanitize=address",
            "-fno-omit-frame-pointer"]
T0 = time.time()


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
    return p


def die(msg, code=2):
    print(msg)
    sys.exit(code)


def must(cmd, **kw):
    p = sh(cmd, **kw)
    if p.returncode != 0:
        raise RuntimeError("command failed: %s\n%s\n%s" % (" ".join(map(shlex.quote, cmd)), p.stdout[-3000:], p.stderr[-6000:]))
    return p


def hfiles(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree(*dirs):
    out = []
    for d in dirs:
        for r, _, fs in os.walk(d):
            out += [os.path.join(r, f) for f in fs if f.endswith((".h", ".hpp", ".cc", ".cpp")) or r.endswith("/symbolic")]
    return [p for p in out if os.path.isfile(p)]


def cached(out, build):
    """build(tmp) unless out exists; atomic rename."""
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    build(tmp)
    os.rename(tmp, out)
    return out


def build_engine(pool):
    """pass plugin and runtime object"""
    hp = hfiles([V + "/symx/pass.cpp"])
    hr = hfiles([V + "/symx/rt.cpp", V + "/symx/symx.h"])
    flags = sh(["llvm-config-18", "--cxxflags"]).stdout.replace("-fno-exceptions", "").split()

    def p(t):
        must(["g++", "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti"] + flags + [V + "/symx/pass.cpp", "-o", t])

    def r(t):
        must(["g++", "-std=c++17", "-O2", "-w", "-c", V + "/symx/rt.cpp", "-o", t])
    f1 = pool.submit(cached, B + "/engine/symx-%s.so" % hp, p)
    f2 = pool.submit(cached, B + "/engine/rt-%s.o" % hr, r)
    return f1, f2


class Program:
    """One harness file with the repository sources it needs."""

    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        self.opt = {}
        self.hopt = {}
        for line in open(path):
            m = re.match(r"//\s*symx:\s*(.*)", line)
            if not m:
                continue
            body = m.group(1).strip()
            m2 = re.match(r"harness\s+(\S+)\s*(.*)", body)
            tgt = self.opt
            if m2:
                tgt = self.hopt.setdefault(m2.group(1), {})
                body = m2.group(2)
            for kv in shlex.split(body):
                k, _, v = kv.partition("=")
                tgt[k] = v
        self.sources = []
        for s in self.opt.get("sources", "").split(","):
            s = s.strip()
            if not s:
                continue
            if s == "DOMAIN":  # the whole library on the VAL stand-in
                self.sources.append(V + "/shim/valshim.cpp")
                self.sources += sorted(f for d in ("/src", "/src/utils", "/src/planning") for f in glob.glob(R + d + "/*.cc")
                                       if not f.endswith("/doctest.cc"))
                continue
            self.sources.append(s if s.startswith("/") else (V + "/" + s[1:] if s.startswith("@") else R + "/" + s))
        # include= only affects the symbolic build; replays always run the real headers
        inc = [V + "/symx", V + "/harness"]
        post = [V + "/shim", R + "/include", R + "/src"]
        mk = lambda l: sum([["-I", d] for d in l], []) + ["-I/usr/include/eigen3"]
        self.inc_sym = mk(inc + [V + "/" + d for d in self.opt.get("include", "").split(",") if d] + post)
        self.inc_nat = mk(inc + post)
        self.defs = ["-D" + d for d in self.opt.get("defines", "").split(",") if d]

    def key(self):
        if not hasattr(self, "_key"):
            files = tree(R + "/include", R + "/src", V + "/shim", V + "/harness", V + "/symx")
            self._key = hfiles(files)
        return self._key

    def units(self):
        return [self.path] + self.sources

    def _compile(self, src, cxx, kind, extra):
        # key: preprocessed text, so unrelated edits do not invalidate the cache
        cmd = cxx + extra + self.defs + (self.inc_sym if kind == "bc" else self.inc_nat)
        pp = must(cmd + ["-E", "-P", src]).stdout if kind != "bc" else must(cmd + ["-E", src]).stdout
        k = hashlib.sha256((" ".join(cmd) + "\0" + src + "\0" + pp).encode()).hexdigest()[:24]
        out = B + "/cache/%s-%s.%s" % (os.path.basename(src).replace(".", "_"), k, kind)
        return cached(out, lambda t: must(cmd + ["-c", src, "-o", t]))

    def start(self, pool, engine, asan=False):
        self.f_bc = [pool.submit(self._compile, s, CXX_IR, "bc", ["-emit-llvm"]) for s in self.units()]
        self.f_bc.append(pool.submit(self._compile, V + "/symx/symxlib.cpp", CXX_IR, "bc", ["-emit-llvm", "-fno-builtin"]))
        self.f_nat = [pool.submit(self._compile, s, CXX_NATIVE, "o", []) for s in self.units() + [V + "/symx/replay.cpp"]]
        self.engine = engine

    def link_symbolic(self):
        bcs = [f.result() for f in self.f_bc]
        so, rt = self.engine[0].result(), self.engine[1].result()
        k = hashlib.sha256("\0".join(bcs + [so, rt]).encode()).hexdigest()[:24]
        out = B + "/prog/%s-%s" % (self.name, k)
        self.meta = out + ".meta.json"

        def b(t):
            must(["llvm-link-18", "-o", t + ".bc"] + bcs)
            env = dict(os.environ, SYMX_META=self.meta)
            must(["opt-18", "-load-pass-plugin", so, "-passes=function(lowerswitch),symx", t + ".bc", "-o", t + ".i.bc"], env=env)
            must(["clang++", "-O1", "-w", "-c", "-Xclang", "-disable-llvm-passes", t + ".i.bc", "-o", t + ".o"])
            must(["clang++", t + ".o", rt, "-lz3", "-lpthread", "-o", t])
            for x in (".bc", ".i.bc", ".o"):
                os.unlink(t + x)
        self.exe = cached(out, b)
        return self.exe

    def link_native(self):
        os_ = [f.result() for f in self.f_nat]
        k = hashlib.sha256("\0".join(os_).encode()).hexdigest()[:24]
        self.nat = cached(B + "/prog/%s-nat-%s" % (self.name, k), lambda t: must(["g++"] + os_ + ["-lpthread", "-o", t]))
        return self.nat

    def link_asan(self):
        if getattr(self, "asan", None):
            return self.asan
        with cf.ThreadPoolExecutor(JOBS) as pool:
            os_ = list(pool.map(lambda s: self._compile(s, CXX_ASAN, "asan.o", []), self.units() + [V + "/symx/replay.cpp"]))
        k = hashlib.sha256("\0".join(os_).encode()).hexdigest()[:24]
        self.asan = cached(B + "/prog/%s-asan-%s" % (self.name, k), lambda t: must(["clang++", "-fsanitize=address"] + os_ + ["-lpthread", "-o", t]))
        return self.asan


def replay(exe, harness, vals, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0")
    cmd = [exe, harness, vals if isinstance(vals, str) else ",".join(map(str, vals))]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env,
                           preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_CORE, (0, 0)))
        out = p.stdout.decode(errors="replace")
        return p.returncode, out
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode(errors="replace")


def failed(rc, out):
    if rc == 0 or rc == 3:
        return None
    if rc == "hang":
        return "does not terminate"
    m = re.search(r"ASSERTION FAILED: (.*)", out)
    if m:
        return m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", out)
    if m:
        return "memory error: " + m.group(1)
    m = re.search(r"terminate called.*?(?:what\(\):\s*(.*))?$", out, re.S)
    if m:
        return "uncaught exception: " + (m.group(1) or "").strip()[:200]
    return "abnormal termination (%s)" % rc


def repo_functions(meta, hits):
    out = set()
    for i in hits:
        if i < len(meta["functions"]):
            n, f = meta["functions"][i]
            if "/repo/" in f or f.startswith(R + "/") or "symbolic" in f and V not in f:
                out.add(n)
    return out


def load_known():
    p = V + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    known = [k for k in load_known() if k.get("status") == "open" and k["property"] == pid]
    progs = [Program(p) for p in sorted(glob.glob(V + "/harness/%s.cpp" % pid) + glob.glob(V + "/harness/%s_*.cpp" % pid))]
    if not progs:
        die("no harness for " + pid)
    outdir = V + "/out/" + pid
    os.makedirs(outdir, exist_ok=True)
    for f in glob.glob(outdir + "/*"):
        os.unlink(f)
    tot = dict(inconsistent=0, cacheHits=0, solved=0, paths=0, queries=0, sat=0, unsat=0, unknown=0, branches=0, implied=0, concretizations=0, asserts_sym=0,
               asserts_conc=0, max_depth=0, extConc=0, assumeCut=0, solver_s=0.0, divergences=0, staleShadow=0)
    functions, harnesses, samples, problems, viol, knownhit = set(), [], [], [], [], {}
    validated = 0
    exhaustive = True
    with cf.ThreadPoolExecutor(JOBS) as pool:
        eng = build_engine(pool)
        live = []
        for pr in progs:
            pr.start(pool, eng)
        for pr in progs:
            try:
                pr.link_symbolic()
                live.append(pr)
            except RuntimeError as e:
                fb = pr.opt.get("optional")
                if fb:
                    print("note: %s does not build against this tree, using %s only" % (pr.name, fb))
                    problems.append("%s not built" % pr.name)
                    exhaustive = False
                else:
                    for f in pr.f_nat:
                        f.cancel()
                    print(e)
                    die("cannot build the harness %s" % pr.name)
        for pr in live:
            pr.link_native()
    if not live:
        die("nothing built")
    tbuild = time.time() - t0
    limit = float(os.environ.get("SYMX_LIMIT", "780" if tier == "quick" else "100000"))
    for pr in live:
        meta = json.load(open(pr.meta))
        for line in sh([pr.exe, "--list"]).stdout.split("\n"):
            if not line.strip():
                continue
            h, tiers = line.split()
            if not int(tiers) & (1 if tier == "quick" else 2):
                continue
            if os.environ.get("SYMX_ONLY") and os.environ["SYMX_ONLY"] != h:
                continue
            ho = dict(pr.opt)
            ho.update(pr.hopt.get(h, {}))
            budget = float(ho.get("budget" if tier == "quick" else "thorough_budget", 100 if tier == "quick" else 1800))
            budget = min(budget, max(10, limit - (time.time() - t0)))
            res = outdir + "/%s.json" % h
            p = sh([pr.exe, "--run", h, "--jobs", str(JOBS), "--budget", str(budget), "--out", res,
                    "--path-timeout", ho.get("path_timeout", "60"), "--max-branches", ho.get("max_branches", "100000")])
            if p.returncode != 0 or not os.path.exists(res):
                # the concrete set-up (loading the fixed tasks) may itself crash, hang or fail
                for exe in (pr.nat, pr.link_asan()):
                    rc, out = replay(exe, h, "setup", 60)
                    why = failed(rc, out)
                    if why:
                        break
                if why:
                    f = outdir + "/violation-%d.txt" % (len(viol) + 1)
                    with open(f, "w") as o:
                        o.write("property: %s\nharness: %s (%s)\nwhat: the fixed set-up fails: %s\nreplay: %s %s setup\n\n%s\n" % (
                            pid, h, pr.path, why, exe, h, out[-8000:]))
                    viol.append((h, "set-up: " + why, f))
                    exhaustive = False
                    break
                print(p.stdout[-2000:], p.stderr[-2000:])
                die("engine failed on harness %s (%s)" % (h, p.returncode))
            d = json.load(open(res))
            for k in tot:
                if k == "max_depth":
                    tot[k] = max(tot[k], d[k])
                else:
                    tot[k] += d.get(k, 0)
            fh = repo_functions(meta, d["fnhit"])
            functions |= fh
            isknown = [k for k in known if k["harness"] == h]
            # native confirmation of candidates
            confirmed = 0
            for v in d["violations"]:
                rc, out = replay(pr.nat, h, v["vals"])
                why, exe = failed(rc, out), pr.nat
                if why is None:
                    rc, out = replay(pr.link_asan(), h, v["vals"], 60)
                    why, exe = failed(rc, out), pr.asan
                if why is None:
                    problems.append("%s: candidate not reproduced (%s; inputs %s)" % (h, v["msg"], v["vals"]))
                    exhaustive = False
                    continue
                kf = [k for k in isknown if re.search(k["match"], why)]
                if kf:
                    knownhit[kf[0]["id"]] = kf[0]
                    continue
                confirmed += 1
                f = outdir + "/violation-%d.txt" % (len(viol) + 1)
                with open(f, "w") as o:
                    o.write("property: %s\nharness: %s (%s)\nwhat: %s\nengine: %s\ninput values: %s\nreplay: %s %s %s\n\n%s\n" % (
                        pid, h, pr.path, why, v["msg"], v["vals"], exe, h, ",".join(map(str, v["vals"])) or "''", out[-8000:]))
                viol.append((h, why, f))
            # path models validated against the real code
            for s in d["samples"]:
                rc, out = replay(pr.nat, h, s)
                why = failed(rc, out)
                if why and not any(re.search(k["match"], why) for k in isknown):
                    f = outdir + "/violation-%d.txt" % (len(viol) + 1)
                    with open(f, "w") as o:
                        o.write("property: %s\nharness: %s (path model)\nwhat: %s\ninput values: %s\nreplay: %s %s %s\n\n%s\n" % (
                            pid, h, why, s, pr.nat, h, ",".join(map(str, s)) or "''", out[-8000:]))
                    viol.append((h, why, f))
                elif rc == 0:
                    validated += 1
                    if len(samples) < 12:
                        ins = re.findall(r"INPUT (.*)", out)
                        samples.append({"harness": h, "inputs_of_path_model": ins[:60], "native_replay": "agrees"})
            missing = [l for l in ho.get("require", "").split(",") if l and l not in d["reach"]]
            if missing and not d["violations"] and d["exhausted"]:
                problems.append("%s: vacuous, never reached %s" % (h, missing))
                print("VACUOUS %s: label(s) %s never reached" % (h, missing))
                if not viol:
                    die("harness %s is vacuous on this tree" % h)
            if not d["exhausted"] and not isknown:
                exhaustive = False
            harnesses.append({"harness": h, "bounds": ho.get("bounds", ""), "exhausted": d["exhausted"], "paths": d["paths"],
                              "queries": d["queries"], "unsat": d["unsat"], "sat": d["sat"], "unknown": d["unknown"],
                              "asserts_decided_by_solver": d["asserts_sym"], "asserts_path_constant": d["asserts_conc"],
                              "concretizations": d["concretizations"], "solver_s": d["solver_s"], "wall_s": d["wall_s"],
                              "reached": d["reach"], "timed_out": d["timed_out"], "divergences": d["divergences"],
                              "repo_functions_executed": len(fh)})
            print("%-28s %s paths=%d queries=%d (unsat %d sat %d unknown %d) asserts sym=%d const=%d solver=%.1fs wall=%.1fs%s%s" % (
                h, "exhausted" if d["exhausted"] else ("TIMEOUT pending=%d" % d["pending"] if d["timed_out"] else "stopped"), d["paths"],
                d["queries"], d["unsat"], d["sat"], d["unknown"], d["asserts_sym"], d["asserts_conc"], d["solver_s"], d["wall_s"],
                " DIVERGENCES=%d" % d["divergences"] if d["divergences"] else "", (" stale=%d" % d["staleShadow"] if d["staleShadow"] else "") + (" INCONSISTENT=%d" % d["inconsistent"] if d["inconsistent"] else "")))
            if os.environ.get("SYMX_FORKS"):
                for s, n in d["forksites"][:12]:
                    print("    fork %6d %s" % (n, meta["sites"][s] if s < len(meta["sites"]) else s))
            if viol and tier == "quick":
                break
        if viol and tier == "quick":
            break
    fn = sorted(re.sub(r"\s+", " ", f) for f in functions if "symbolic::" in f or "symbolic::" in f)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["branches"] + tot["concretizations"],
            "traces_validated_against_impl": validated, "samples": samples or [{"note": "no path model recorded"}],
            "exhaustive": bool(exhaustive and not viol),
            "method": "dynamic symbolic execution of the LLVM IR of /repo's current sources with z3; a state is a path class "
                      "(set of inputs driving the real code along one path), a transition is a symbolic branch or address decision "
                      "settled by the solver",
            "functions_encoded": fn, "functions_encoded_count": len(fn), "harnesses": harnesses,
            "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"],
            "solver_s": round(tot["solver_s"], 3), "asserts_decided_by_solver": tot["asserts_sym"],
            "asserts_path_constant": tot["asserts_conc"], "max_path_decisions": tot["max_depth"],
            "inputs_cut_by_assumption": tot["assumeCut"], "build_s": round(tbuild, 1), "problems": problems,
            "known_findings_reproduced": sorted(knownhit),
        },
        "assumptions": [x.strip() for pr in live for x in pr.opt.get("assumptions", "").split("|") if x.strip()] + [
            "inputs outside the stated bounds are not covered",
            "trusted: clang 18 -O1 lowering to IR, the symx instrumentation and runtime, z3, libstdc++ non-template code (executed concretely)"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in knownhit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for p in problems:
        print("note:", p)
    for h, why, f in viol:
        print("violated: %s: %s" % (h, why))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, viol[0][2]))
        return 1
    print("OK property=%s tier=%s %s build=%.0fs wall=%.0fs" % (pid, tier, "exhaustive within bounds" if exhaustive else "NOT exhaustive", tbuild, time.time() - t0))
    return 0


def python_check(prop, tier):
    """the properties of the Python helper: pysym, run by the interpreter that has z3"""
    return subprocess.run(["/opt/veriftools/pyvenv/bin/python3", "-B", "-m", "pysym.main", prop, tier], cwd=V).returncode


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "setup":
        with cf.ThreadPoolExecutor(JOBS) as pool:
            for f in build_engine(pool):
                f.result()
        print("engine built")
        return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        if os.path.exists(V + "/pysym/%s.py" % a[1]):
            return python_check(a[1], tier)
        return check(a[1], tier)
    die(__doc__)


if __name__ == "__main__":
    sys.exit(main())
