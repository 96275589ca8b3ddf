"""Symbolic execution of the Python sources of /repo: load them with strings replaced by symstr.SymStr, run a harness along
every feasible path (replay-based depth-first search, Z3 deciding each branch), and replay models natively."""
import ast, builtins, importlib, importlib.machinery, importlib.util, json, multiprocessing, os, signal, sys, time, traceback, types
import z3
from . import symstr
from .symstr import S, SymStr, Unsupported, BITS

R = os.environ.get("SYMX_REPO", "/repo")
PKG = R + "/symbolic"


class Violation(BaseException):
    pass


class Dead(BaseException):
    """an assumption excludes the path"""


class Timeout(BaseException):
    pass


# ------------------------------------------------------------------ loading
class Tx(ast.NodeTransformer):
    def __init__(self):
        self.names = []

    def _doc(self, node):
        b = node.body
        doc = None
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            doc, node.body = b[0], b[1:] or [ast.Pass()]
        return doc

    def visit_Module(self, node):
        self._doc(node)
        self.generic_visit(node)
        return node

    def visit_ClassDef(self, node):
        self._doc(node)
        self.names.append(node.name)
        self.generic_visit(node)
        self.names.pop()
        return node

    def visit_FunctionDef(self, node):
        self._doc(node)
        self.names.append(node.name)
        q = ".".join(self.names)
        node.returns = None
        for a in ast.walk(node.args):
            if isinstance(a, ast.arg): a.annotation = None
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(ast.Call(ast.Name("symx_enter__", ast.Load()), [ast.Constant(q)], [])))
        self.names.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None: node.value = self.visit(node.value)
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, str):
            return ast.Call(ast.Name("symx_s__", ast.Load()), [ast.Constant(node.value)], [])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(ast.Call(ast.Name("symx_s__", ast.Load()), [ast.Constant(v.value)], []))
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(None)
                parts.append(ast.Call(ast.Name("symx_f__", ast.Load()), [self.visit(v.value), ast.Constant(v.conversion), spec], []))
        return ast.Call(ast.Name("symx_j__", ast.Load()), [ast.List(parts, ast.Load())], [])

    def visit_MatchValue(self, node):
        return node


def _f(v, conv, spec):
    v = symstr.to_str(v) if conv == 115 else symstr.to_repr(v) if conv in (114, 97) else v
    return symstr.to_format(v, "" if spec is None else spec)


def _conc(x):
    return S(x).text() if isinstance(x, SymStr) and not type(x) is str else x


FUNCS = set()
MODS = {}  # of the current path: every path starts with freshly loaded modules
CODE = {}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if name == "re" and not level: return symstr.ReModule
    if name == "io" and not level: return symstr.IoModule
    if level or name.split(".")[0] == "symbolic":
        rel = name if level else name[len("symbolic."):]
        if rel: return load(rel)
        m = types.SimpleNamespace()
        for f in fromlist: setattr(m, f, load(f))
        return m
    if name == "textwrap" and not level: return load(name, importlib.util.find_spec("textwrap").origin)
    return builtins.__import__(name, globals, locals, fromlist, level)


def _unsupported(what):
    def f(*a, **k): raise Unsupported(what)
    return f


def load(rel, path=None):
    """the module with symbolic strings"""
    if rel in MODS: return MODS[rel]
    path = path or PKG + "/" + rel.replace(".", "/") + ".py"
    if not os.path.exists(path): raise Unsupported("import of " + rel)
    if path not in CODE:
        tree = ast.fix_missing_locations(Tx().visit(ast.parse(open(path).read(), path)))
        CODE[path] = compile(tree, path, "exec")
    mod = types.ModuleType("symx_" + rel.replace(".", "_"))
    mod.__file__ = path
    g = mod.__dict__
    b = dict(vars(builtins))
    b["__import__"] = _import
    g.update(__builtins__=b, symx_s__=S, symx_f__=_f, symx_j__=lambda l: S("").join(l), symx_enter__=FUNCS.add,
             str=SymStr, repr=symstr.to_repr, format=lambda v, spec="": symstr.to_format(v, spec),
             getattr=lambda o, n, *d: getattr(o, _conc(n), *d), hasattr=lambda o, n: hasattr(o, _conc(n)),
             setattr=lambda o, n, v: setattr(o, _conc(n), v), print=lambda *a, **k: None,
             ord=lambda x: S(x).c[0] if isinstance(S(x).c[0], int) else _unsupported("ord of a symbolic character")(),
             chr=lambda n: S(chr(n)))
    sys.modules[mod.__name__] = mod
    MODS[rel] = mod
    exec(CODE[path], g)
    return mod


NCODE = {}


class _Finder(importlib.machinery.SourceFileLoader):
    def get_code(self, name):
        if self.path not in NCODE: NCODE[self.path] = compile(open(self.path).read(), self.path, "exec")
        return NCODE[self.path]


class _Meta:
    @staticmethod
    def find_spec(name, path=None, target=None):
        f = PKG + "/" + name[len("symx_native."):].replace(".", "/") + ".py"
        if name.startswith("symx_native.") and os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Finder(name, f))


sys.meta_path.insert(0, _Meta)


def native(rel):
    """the unmodified module, freshly loaded, without the package's __init__ (which needs the binary extension)"""
    for n in [n for n in sys.modules if n.startswith("symx_native")]: del sys.modules[n]
    p = types.ModuleType("symx_native"); p.__path__ = [PKG]; sys.modules["symx_native"] = p
    return importlib.import_module("symx_native." + rel)


# ------------------------------------------------------------------ paths
class Path:
    symbolic = True

    def __init__(self, prefix, stats):
        self.prefix, self.pos, self.stats = list(prefix), 0, stats
        self.decisions, self.alts = [], []
        self.solver = z3.Solver()
        self.cache = {}
        self.inputs = []  # (name, kind, value)
        self.asserts = 0
        self.labels = []

    def _check(self, *a):
        t = time.time()
        r = self.solver.check(*a)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        self.stats["sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"] += 1
        if r == z3.unknown: raise Unsupported("solver gave no answer")
        return r == z3.sat

    def branch(self, cond):
        if isinstance(cond, bool): return cond
        key = cond.get_id()
        if key in self.cache: return self.cache[key][1]
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]; self.pos += 1
        else:
            t = self._check(cond)
            f = self._check(z3.Not(cond)) if t else True
            if t and f:
                v = True
                self.alts.append(self.decisions + [False])
            else:
                v = t
                self.cache[key] = (cond, v)
                self.solver.add(cond if v else z3.Not(cond))
                self.decisions.append(v); self.pos += 1; self.prefix.append(v)
                return v
            self.prefix.append(v); self.pos += 1
        self.decisions.append(v)
        self.solver.add(cond if v else z3.Not(cond))
        self.cache[key] = (cond, v)
        if len(self.decisions) > 20000: raise Unsupported("too many decisions on one path")
        return v

    # --- inputs
    def choose(self, name, n):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]; self.pos += 1
        else:
            v = 0
            self.alts += [self.decisions + [k] for k in range(1, n)]
            self.prefix.append(v); self.pos += 1
        self.decisions.append(v)
        self.inputs.append((name, "choice", v))
        return v

    def string(self, name, length, without=None):
        """a string of symbolic characters (any Unicode scalar value outside the ranges `without`)"""
        c = []
        for i in range(length):
            x = z3.BitVec("%s[%d]" % (name, i), BITS)
            self.solver.add(z3.ULE(x, z3.BitVecVal(0x10FFFF, BITS)), z3.Or(z3.ULT(x, z3.BitVecVal(0xD800, BITS)), z3.UGT(x, z3.BitVecVal(0xDFFF, BITS))))
            for a, b in without or ():
                self.solver.add(z3.Or(z3.ULT(x, z3.BitVecVal(a, BITS)), z3.UGT(x, z3.BitVecVal(b, BITS))))
            c.append(x)
        s = SymStr._of(tuple(c))
        self.inputs.append((name, "string", s))
        return s

    def assume(self, cond):
        """cond: bool or z3 formula"""
        if isinstance(cond, bool):
            if not cond: raise Dead()
            return
        self.solver.add(cond)
        if not self._check(): raise Dead()

    def differ(self, a, b):
        f = symstr.eq_formula(a, b)
        self.assume((not f) if isinstance(f, bool) else z3.Not(f))

    def lit(self, s): return S(s)

    def equal(self, a, b, what):
        """assert that two strings are the same for every value on this path"""
        self.asserts += 1
        f = symstr.eq_formula(a, b)
        if f is True: return
        if f is False: self.fail(what)
        if self._check(z3.Not(f)):
            self.solver.add(z3.Not(f))
            self.fail(what)

    def check(self, cond, what):
        self.asserts += 1
        if not cond: self.fail(what)

    def fail(self, what):
        raise Violation(what)

    def reach(self, label): self.labels.append(label)

    def is_in(self, ch, chars):
        """whether a one-character string is among chars"""
        return any(symstr.same(S(ch).c[0], ord(x)) for x in chars)

    def within(self, ch, ranges):
        """whether a one-character string lies in the code point ranges"""
        return symstr.in_ranges(S(ch).c[0], ranges)

    def model(self, readable=False):
        if readable:  # prefer letters
            for n, k, v in self.inputs:
                for i, c in enumerate(v.c if k == "string" else ()):
                    a = 97 + i % 26
                    if isinstance(c, int): continue
                    for f in (c == a, z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), z3.And(z3.UGE(c, 32), z3.ULE(c, 126))):
                        if self._check(f):
                            self.solver.add(f)
                            break
        self._check()
        m = self.solver.model()
        out = []
        for n, k, v in self.inputs:
            if k == "choice": out.append([n, v])
            else: out.append([n, "".join(chr(c) if isinstance(c, int) else chr(m.eval(c, True).as_long()) for c in v.c)])
        self.z3model = m
        return out

    def evaluate(self, x):
        """a result under the model, as native values"""
        if isinstance(x, SymStr):
            return "".join(chr(c) if isinstance(c, int) else chr(self.z3model.eval(c, True).as_long()) for c in S(x).c)
        if isinstance(x, (list, tuple)): return [self.evaluate(y) for y in x]
        return x


class Concrete:
    """the same harness on the real code with the inputs of a model"""
    symbolic = False

    def __init__(self, inputs):
        self.inputs, self.k, self.labels = inputs, 0, []

    def _next(self, name):
        n, v = self.inputs[self.k]; self.k += 1
        assert n == name, (n, name)
        return v

    def choose(self, name, n): return self._next(name)
    def string(self, name, length, without=None): return self._next(name)

    def assume(self, c):
        if c is False: raise Dead()

    def differ(self, a, b):
        if a == b: raise Dead()

    def lit(self, s): return s

    def equal(self, a, b, what):
        if a != b: raise Violation(what)

    def check(self, c, what):
        if not c: raise Violation(what)

    def reach(self, label): self.labels.append(label)
    def is_in(self, ch, chars): return ch in chars
    def within(self, ch, ranges): return any(a <= ord(ch) <= b for a, b in ranges)


def _alarm(*_): raise Timeout()


def run_native(fn, inputs, limit=10):
    """('ok', observed) | ('violated', what) | ('hang', ..)"""
    e = Concrete(inputs)
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(limit)
    try:
        return "ok", normal(fn(e, native("problem")))
    except Violation as v:
        return "violated", str(v)
    except Dead:
        return "dead", None
    except Timeout:
        return "violated", "does not end within %d s" % limit
    except Exception as x:
        return "violated", "uncaught " + type(x).__name__ + ": " + str(x)
    finally:
        signal.alarm(0)


def normal(x):
    return [normal(y) for y in x] if isinstance(x, (list, tuple)) else x


def run_path(fn, prefix, stats, limit):
    """returns (alts, record)"""
    p = Path(prefix, stats)
    symstr.PATH = p
    MODS.clear()
    rec = {"inputs": None, "status": "ok"}
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(limit)
    res = None
    try:
        res = fn(p, load("problem"))
    except Violation as v:
        rec["status"], rec["what"] = "violated", str(v)
    except Dead:
        rec["status"] = "dead"
    except Timeout:
        rec["status"], rec["what"] = "violated", "does not end"
    except Unsupported as u:
        rec["status"], rec["what"] = "unsupported", str(u)
    except RecursionError:
        rec["status"], rec["what"] = "violated", "uncaught RecursionError"
    except Exception as x:
        rec["status"], rec["what"] = "violated", "uncaught %s: %s" % (type(x).__name__, x)
        rec["trace"] = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    stats["paths"] += rec["status"] != "dead"
    stats["decisions"] += len(p.decisions)
    stats["asserts"] += p.asserts
    if rec["status"] in ("ok", "violated"):
        rec["inputs"] = p.model(rec["status"] == "violated")
        st, obs = run_native(fn, rec["inputs"])
        rec["native"] = (st, obs if st == "violated" else None)
        if rec["status"] == "ok":
            if st == "violated":
                rec["status"], rec["what"] = "violated", obs
            elif st != "ok" or obs != normal(p.evaluate(res)):
                rec["status"], rec["what"] = "mismatch", "native %r, symbolic %r" % (obs, normal(p.evaluate(res)))
            else:
                stats["replayed"] += 1
                for l in p.labels: stats["labels"][l] = stats["labels"].get(l, 0) + 1
        elif st != "violated":
            rec["status"] = "mismatch"
            rec["what"] += " (not reproduced natively: %s)" % st
    symstr.PATH = None
    return p.alts, rec


def new_stats():
    return {"queries": 0, "solver_s": 0.0, "sat": 0, "unsat": 0, "unknown": 0, "paths": 0, "decisions": 0, "asserts": 0, "replayed": 0, "labels": {}}


def merge(a, b):
    for k, v in b.items():
        if k == "labels":
            for l, n in v.items(): a[k][l] = a[k].get(l, 0) + n
        else: a[k] += v


HARNESSES = {}


def explore(job):
    """depth-first below a prefix; stops early on trouble or when the deadline passes"""
    name, prefix, deadline, limit, maxpaths = job
    fn = HARNESSES[name]
    stats, bad, samples, work = new_stats(), [], [], [prefix]
    FUNCS.clear()
    while work:
        if len(bad) >= 3 or (maxpaths and stats["paths"] >= maxpaths): break
        if time.time() > deadline:
            return stats, bad, samples, work, sorted(FUNCS)
        alts, rec = run_path(fn, work.pop(), stats, limit)
        work += alts
        if rec["status"] not in ("ok", "dead"): bad.append(rec)
        elif rec["status"] == "ok" and len(samples) < 2: samples.append(rec["inputs"])
    return stats, bad, samples, work, sorted(FUNCS)


def run(prop, tier, harnesses, assumptions, V):
    """harnesses: list of (name, fn, bounds, required labels, budget s)"""
    t0 = time.time()
    try:
        native("problem"), load("problem")
    except BaseException as x:
        print("inconclusive: cannot load %s/problem.py: %s: %s" % (PKG, type(x).__name__, x))
        return 2
    jobs = int(os.environ.get("SYMX_JOBS", "8"))
    only = os.environ.get("SYMX_ONLY")
    harnesses = [h for h in harnesses if not only or h[0] == only]
    for h in harnesses: HARNESSES[h[0]] = h[1]
    os.makedirs(V + "/out/" + prop, exist_ok=True)
    for f in os.listdir(V + "/out/" + prop): os.unlink(V + "/out/" + prop + "/" + f)
    total, cov, samples, violations, trouble, funcs = new_stats(), [], [], [], [], set()
    with multiprocessing.get_context("fork").Pool(jobs) as pool:
        for name, fn, bounds, required, budget in harnesses:
            th = time.time()
            st, bad, pend, deadline = new_stats(), [], [[]], time.time() + budget
            # widen: a few paths in one process, then the open prefixes in parallel
            first = True
            while pend and len(bad) < 3:
                if time.time() > deadline: break
                if first:
                    rs = [pool.apply(explore, ((name, pend[0], deadline, 20, 24),))]
                    first = False
                else:
                    rs = pool.map(explore, [(name, p, deadline, 20, 60) for p in pend], chunksize=1)
                pend = []
                for s, b, sm, rest, fs in rs:
                    merge(st, s); bad += b; pend += rest; funcs.update(fs)
                    if len(samples) < 40 and sm: samples.append({"harness": name, "inputs_of_path_model": ["%s = %r" % tuple(x) for x in sm[0]], "native_replay": "agrees"})
            merge(total, st)
            v = [r for r in bad if r["status"] == "violated"]
            seen = set()
            for r in v:
                key = r["what"].split(":")[0]
                if key in seen: continue
                seen.add(key)
                f = V + "/out/%s/violation-%d.txt" % (prop, len(violations) + 1)
                with open(f, "w") as o:
                    o.write("property %s\nharness %s\nviolated: %s\n" % (prop, name, r["what"]))
                    for x in r["inputs"]: o.write("input %s = %r\n" % tuple(x))
                    o.write("native run: %s %s\n%s\n" % (r["native"][0], r["native"][1], r.get("trace", "")))
                    o.write("json %s\n" % json.dumps([name, r["inputs"]]))
                violations.append((f, name + ": " + r["what"], r["inputs"]))
            ok = not v
            for r in bad:
                if r["status"] in ("unsupported", "mismatch"): trouble.append("%s: %s: %s %s" % (name, r["status"], r["what"], r["inputs"]))
            done = not pend and not bad
            if pend and ok and not bad: trouble.append("%s: not finished within %d s (%d open paths)" % (name, budget, len(pend)))
            if done:
                for l in required:
                    if not st["labels"].get(l): trouble.append("%s: never reached: %s" % (name, l))
            print("%-12s %s paths=%d decisions=%d queries=%d (unsat %d sat %d unknown %d) asserts=%d solver=%.1fs wall=%.1fs" % (
                name, "exhausted" if done else "stopped", st["paths"], st["decisions"], st["queries"], st["unsat"], st["sat"], st["unknown"], st["asserts"], st["solver_s"], time.time() - th), flush=True)
            cov.append({"harness": name, "bounds": bounds, "paths": st["paths"], "queries": st["queries"], "unsat": st["unsat"], "sat": st["sat"],
                        "solver_s": round(st["solver_s"], 2), "labels": st["labels"], "exhausted_within_bounds": done})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": total["paths"] + total["decisions"], "transitions": total["decisions"], "traces_validated_against_impl": total["replayed"],
                       "samples": samples or [{"none": "no path finished"}], "harnesses": cov, "functions_encoded": sorted(funcs), "queries": total["queries"],
                       "solver_s": round(total["solver_s"], 2), "bounds": {h[0]: h[2] for h in harnesses},
                       "explanation": "states: decision points and leaves of the explored path trees; transitions: decisions (branches on symbolic characters decided by Z3, and choices of input shape); every path's model was also run on the unmodified module and agreed"},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % prop, "w") as o: json.dump(ev, o, indent=1)
    for f, what, inputs in violations:
        print("violated: " + what)
        for x in inputs: print("  %s = %r" % tuple(x))
        print("VIOLATION property=%s replay=%s" % (prop, f))
    if violations: return 1
    for t in trouble: print("inconclusive: " + t[:600])
    if trouble: return 2
    print("OK property=%s tier=%s exhaustive within bounds wall=%.0fs" % (prop, tier, time.time() - t0))
    return 0
