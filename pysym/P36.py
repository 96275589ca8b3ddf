"""P36: the PDDL text the Python problem builder prints (symbolic/problem.py)."""
from pysym import explore

PROP = "P36"
ASSUMPTIONS = ["names are one or more characters other than white space, parentheses, commas, semicolons and quotes, and are not a lone '-'",
               "white space is what Python calls white space; a comment would run from ';' to the end of the line"]
SPACE = [(9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]
MARKS = SPACE + [(34, 34), (40, 41), (59, 59)]
NOT_NAME = SPACE + [(34, 34), (40, 41), (44, 44), (59, 59)]


def name(E, n, most=2):
    """a symbolic name"""
    s = E.string(n, 1 + (E.choose(n + " length", most) if most > 1 else 0), NOT_NAME)
    if len(s) == 1: E.differ(s, E.lit("-"))
    return s


# ------------------------------------------------------------------ reading PDDL
def tokens(E, text):
    out, cur = [], None
    for ch in text:
        if not E.within(ch, MARKS):
            cur = ch if cur is None else cur + ch
        elif E.within(ch, SPACE):
            if cur is not None: out.append(cur); cur = None
        elif E.is_in(ch, "()"):
            if cur is not None: out.append(cur); cur = None
            out.append("(" if E.is_in(ch, "(") else ")")
        else: E.check(False, "no comment or quote in the output")
    if cur is not None: out.append(cur)
    return out


def read(E, text):
    """the single s-expression of the text"""
    top, stack = [], []
    for t in tokens(E, text):
        if t == "(" and isinstance(t, str) and type(t) is str:
            stack.append([])
        elif type(t) is str and t == ")":
            E.check(bool(stack), "parentheses are balanced")
            x = stack.pop()
            (stack[-1] if stack else top).append(x)
        else:
            (stack[-1] if stack else top).append(Tok(t))
    E.check(not stack, "parentheses are balanced")
    E.check(len(top) == 1 and isinstance(top[0], list), "one expression")
    return top[0]


class Tok:
    def __init__(self, s): self.s = s


def word(E, x, want, what):
    E.check(isinstance(x, Tok), what)
    E.equal(x.s, want, what)


def head(E, x, want):
    """whether x is an expression starting with the given word"""
    return isinstance(x, list) and bool(x) and isinstance(x[0], Tok) and len(x[0].s) == len(want) and bool(x[0].s == E.lit(want))


def typed(E, xs, want, what):
    """a PDDL typed list: every name takes the next type; names without one are objects"""
    got, pending, i = [], [], 0
    while i < len(xs):
        E.check(isinstance(xs[i], Tok), what)
        if len(xs[i].s) == 1 and xs[i].s == E.lit("-"):
            E.check(i + 1 < len(xs) and isinstance(xs[i + 1], Tok) and pending, what)
            got += [(p, xs[i + 1].s) for p in pending]
            pending = []
            i += 2
        else:
            pending.append(xs[i].s)
            i += 1
    got += [(p, None) for p in pending]
    E.check(len(got) == len(want), what + ": number")
    for (n, t), (wn, wt) in zip(got, want):
        E.equal(n, wn, what + ": name")
        plain = t is None or (len(t) == 6 and t == E.lit("object"))
        if wt is None or (len(wt) == 6 and wt == E.lit("object")): E.check(plain, what + ": no type given")
        else:
            E.check(t is not None, what + ": type")
            E.equal(t, wt, what + ": type")


def formula(E, x, want):
    k = want[0]
    E.check(isinstance(x, list), "a formula")
    if k == "prop":
        E.check(len(x) == 1 + len(want[2]), "arguments of a proposition")
        word(E, x[0], want[1], "predicate of a proposition")
        for a, b in zip(x[1:], want[2]): word(E, a, b, "arguments of a proposition")
        return
    if k in ("forall", "exists"):
        E.check(len(x) == 3 and isinstance(x[1], list), "a quantified formula has a list of variables and a body")
        word(E, x[0], E.lit(k), "connective")
        typed(E, x[1], [(E.lit("?") + want[1], want[2])], "quantified variable")
        formula(E, x[2], want[3])
        return
    E.check(len(x) == 1 + len(want[1]), "operands of a formula")
    word(E, x[0], E.lit(k), "connective")
    for a, b in zip(x[1:], want[1]): formula(E, a, b)


def whole(E, text, pname, domain, objects, init, goal, ordered=True):
    x = read(E, text)
    E.check(len(x) >= 4, "define, problem and the sections")
    word(E, x[0], E.lit("define"), "define")
    E.check(head(E, x[1], "problem") and len(x[1]) == 2, "problem name")
    word(E, x[1][1], pname, "problem name")
    secs = {}
    for sec in x[2:]:
        for k in (":domain", ":objects", ":init", ":goal"):
            if head(E, sec, k):
                E.check(k not in secs, "one section each")
                secs[k] = sec[1:]
                break
        else: E.check(False, "only the four sections")
    E.check(":domain" in secs and len(secs[":domain"]) == 1, "domain name")
    word(E, secs[":domain"][0], domain, "domain name")
    E.check(":objects" in secs or not objects, "objects")
    typed(E, secs.get(":objects", []), objects, "objects")
    E.check(":init" in secs and len(secs[":init"]) == len(init), "initial propositions: number")
    for a, b in zip(secs[":init"], init): formula(E, a, b)
    E.check(":goal" in secs and len(secs[":goal"]) == 1, "one goal")
    formula(E, secs[":goal"][0], goal)


# ------------------------------------------------------------------ describing problems
def prop_text(E, p, form, M):
    _, h, args = p
    if form == 0: return h + "(" + E.lit(", ").join(args) + ")"
    if form == 1: return M._P(h, *args)
    if form == 4: return "(not " + prop_text(E, p, 3, M) + ")"
    if form == 2: return h + "(" + E.lit(",").join(args) + ")"
    return "(" + h + E.lit("").join(E.lit(" ") + a for a in args) + ")"


class Namer:
    """fresh symbolic names for the leaves of a goal"""
    def __init__(self, E, most): self.E, self.n, self.most = E, 0, most

    def __call__(self, what):
        self.n += 1
        return name(self.E, "%s%d" % (what, self.n), self.most)


KINDS = ["prop", "and", "or", "not", "forall", "exists", "when"]


def tree(E, fresh, depth, width, tag):
    """a formula description of at most the given depth"""
    k = KINDS[E.choose(tag + " kind", len(KINDS))] if depth > 1 else "prop"
    if k == "prop":
        h = fresh("p")
        return "prop", h, [fresh("a") for _ in range(E.choose(tag + " arity", width + 1))]
    if k == "not": return k, [tree(E, fresh, depth - 1, width, tag + ".0")]
    if k == "when": return k, [tree(E, fresh, depth - 1, width, tag + ".%d" % i) for i in range(2)]
    if k in ("forall", "exists"):
        v = fresh("v")
        t = fresh("t") if E.choose(tag + " typed", 2) else None
        return k, v, t, tree(E, fresh, depth - 1, width, tag + ".0")
    n = E.choose(tag + " operands", width + 1)
    return k, [tree(E, fresh, depth - 1, width, tag + ".%d" % i) for i in range(n)]


def build(E, M, t):
    k = t[0]
    if k == "prop": return M._P(t[1], *t[2])
    if k == "not": return M._not(build(E, M, t[1][0]))
    if k == "when": return M._when(build(E, M, t[1][0]), build(E, M, t[1][1]))
    if k in ("forall", "exists"):
        return getattr(M, "_" + k)(t[1], t[2] if t[2] is not None else E.lit(""), build(E, M, t[3]))
    return getattr(M, "_" + k)(*[build(E, M, x) for x in t[1]])


def text_of(E, M, p): return M.str(p) if E.symbolic else str(p)


def goals(depth, width):
    def run(E, M):
        t = tree(E, Namer(E, 1), depth, width, "goal")
        f = build(E, M, t)
        p = M.Problem(E.lit("n"), E.lit("d"))
        p.set_goal(f)
        out = text_of(E, M, p)
        whole(E, out, E.lit("n"), E.lit("d"), [], [], t)
        E.reach(t[0])
        return [out]
    return run


def named(E, M):
    """long names in a fixed deep goal"""
    f = Namer(E, 3)
    h, a, v, ty = f("p"), f("a"), f("v"), f("t")
    t = ("and", [("forall", v, ty, ("when", [("prop", h, [E.lit("?") + v, a]), ("not", [("exists", v, None, ("or", [("prop", h, [])]))])]))])
    p = M.Problem(E.lit("n"), E.lit("d"))
    p.set_goal(build(E, M, t))
    out = text_of(E, M, p)
    whole(E, out, E.lit("n"), E.lit("d"), [], [], t)
    E.reach("done")
    return [out]


def objects(most):
    def run(E, M):
        pn, dn = name(E, "problem"), name(E, "domain")
        p = M.Problem(pn, dn)
        want = []
        for i in range(E.choose("objects", most + 1)):
            n = name(E, "object%d" % i, 2 if most < 4 or i < 2 else 1)
            how = E.choose("typed%d" % i, 3)
            if how:
                t = name(E, "type%d" % i, 1) if how == 1 else E.lit("object")
                p.add_object(n, t)
                want.append((n, t))
            else:
                p.add_object(n)
                want.append((n, None))
        out = text_of(E, M, p)
        whole(E, out, pn, dn, want, [], ("and", []))
        E.reach("mixed" if len({t is None for _, t in want}) == 2 else "plain")
        return [out]
    return run


def initial(most):
    def run(E, M):
        p = M.Problem(E.lit("n"), E.lit("d"))
        given, want = [], []
        for i in range(E.choose("propositions", most + 1)):
            fresh = Namer(E, 2 if i == 0 else 1)
            fresh.n = 10 * i
            h = fresh("p")
            fresh.most = 1
            x = ("prop", h, [fresh("a") for _ in range(E.choose("arity%d" % i, 3))])
            form = E.choose("form%d" % i, 5)
            given.append(prop_text(E, x, form, M))
            want.append(x if form < 4 else ("not", [x]))
        at_once = E.choose("at once", 2)
        if E.choose("empty text", 2):
            given.insert(0, E.lit(""))
        if at_once: p.set_initial_state(given)
        else:
            for g in given: p.add_initial_prop(g)
        out = text_of(E, M, p)
        whole(E, out, E.lit("n"), E.lit("d"), [], want, ("and", []))
        E.reach("at once" if at_once else "one by one")
        return [out]
    return run


def history(steps):
    """two problems, operations in any order, printed in between"""
    def run(E, M):
        ps = [M.Problem(E.lit("n%d" % i), E.lit("d%d" % i)) for i in range(2)]
        want = [[[], [], ("and", [])] for _ in range(2)]
        outs = []
        shared = None
        for s in range(steps):
            i = E.choose("problem%d" % s, 2)
            op = E.choose("step%d" % s, 7)
            n = name(E, "s%d" % s, 1)
            if op == 0:
                ps[i].add_object(n); want[i][0].append((n, None))
            elif op == 1:
                ps[i].add_object(n, n); want[i][0].append((n, n))
            elif op == 2:
                ps[i].add_initial_prop(n + "(a)"); want[i][1].append(("prop", n, [E.lit("a")]))
            elif op == 3:
                ps[i].set_goal(M._P(n)); want[i][2] = ("prop", n, [])
            elif op == 4:
                f = M._not(M._and(M._P(n), M._or()))
                ps[i].set_goal(f); want[i][2] = ("not", [("and", [("prop", n, []), ("or", [])])])
            elif op == 5:  # one formula object used twice
                f = M._exists(n, E.lit(""), M._P(n))
                ps[i].set_goal(M._and(f, f)); want[i][2] = ("and", [("exists", n, None, ("prop", n, []))] * 2)
            else:
                outs.append(text_of(E, M, ps[i]))
                whole(E, outs[-1], E.lit("n%d" % i), E.lit("d%d" % i), *want[i])
        for i in range(2):
            outs.append(text_of(E, M, ps[i]))
            whole(E, outs[-1], E.lit("n%d" % i), E.lit("d%d" % i), *want[i])
        E.reach("done")
        return outs
    return run


def full(E, M):
    """everything together"""
    pn, dn = name(E, "problem", 1), name(E, "domain", 1)
    p = M.Problem(pn, dn)
    objs, init = [], []
    for i in range(2):
        n, t = name(E, "object%d" % i, 1), name(E, "type%d" % i, 1) if E.choose("typed%d" % i, 2) else None
        p.add_object(*([n, t] if t is not None else [n])); objs.append((n, t))
        x = ("prop", name(E, "p%d" % i, 1), [name(E, "x%d" % i, 1)] * (i + 1))
        p.add_initial_prop(prop_text(E, x, i, M)); init.append(x)
    t = tree(E, Namer(E, 1), 2, 1, "goal")
    p.set_goal(build(E, M, t))
    out = text_of(E, M, p)
    whole(E, out, pn, dn, objs, init, t)
    E.reach("done")
    return [out]


def main(tier, V):
    t = tier == "thorough"
    every = ["prop", "and", "or", "not", "forall", "exists", "when"]
    B = 700 if t else 150
    hs = [
        ("goals", goals(3, 1), "every goal of depth at most 3 with 0-1 operands and arguments, names of one symbolic character", every, B),
        ("wide", goals(2, 3 if t else 2), "every goal of depth at most 2 with up to %d operands and arguments" % (3 if t else 2), every, B),
        ("named", named, "a goal of depth 6 with names of 1-3 symbolic characters", ["done"], B),
        ("objects", objects(4 if t else 3), "at most %d objects, untyped, typed, or of type object; symbolic names of 1-2 characters" % (4 if t else 3), ["mixed", "plain"], B),
        ("initial", initial(3 if t else 2), "at most %d initial propositions of 0-2 arguments in 4 notations, or negated,, added singly or at once, with or without an empty text" % (3 if t else 2), ["at once", "one by one"], B),
        ("history", history(4 if t else 3), "%d operations on two problems, printed at any point" % (4 if t else 3), ["done"], B),
        ("full", full, "two objects, two initial propositions and a goal of depth 2 together", ["done"], B),
    ]
    if t: hs.append(("deep", goals(4, 1), "every goal of depth at most 4 with 0-1 operands and arguments", every, B))
    return explore.run(PROP, tier, hs, ASSUMPTIONS, V)
