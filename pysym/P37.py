"""P37: splitting a proposition text into head and arguments (symbolic/problem.py)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pysym import explore

PROP = "P37"
ASSUMPTIONS = ["texts of at most the stated number of characters, every character any Unicode scalar value"]


def attempt(f, text):
    try:
        return True, f(text)
    except Exception:
        return False, None


def reference(E, text):
    """(head, arguments) by a scan of the characters, or None without a parenthesis"""
    chars = list(text)
    head, i = E.lit(""), 0
    while i < len(chars) and not E.is_in(chars[i], "("):
        head += chars[i]; i += 1
    if i == len(chars): return None
    i += 1
    args, cur, any_ = [], E.lit(""), False
    while i < len(chars) and not E.is_in(chars[i], ")"):
        if E.is_in(chars[i], ","):
            args.append(cur); cur = E.lit(""); any_ = True
        elif not E.is_in(chars[i], " "):
            cur += chars[i]; any_ = True
        i += 1
    if any_: args.append(cur)
    return head, args


def compare(E, M, text):
    want = reference(E, text)
    ok, r = attempt(M.parse_proposition, text)
    okh, h = attempt(M.parse_head, text)
    oka, a = attempt(M.parse_args, text)
    E.check(ok == (want is not None), "joint: an error exactly when there is no parenthesis")
    E.check(okh == (want is not None), "head: an error exactly when there is no parenthesis")
    E.check(oka == (want is not None), "arguments: an error exactly when there is no parenthesis")
    if want is None:
        E.reach("error")
        return None
    E.check(len(r) == 2, "joint: head and arguments")
    head, args = r
    E.equal(head, want[0], "joint: the head is what precedes the first parenthesis")
    E.equal(h, want[0], "head-only parsing agrees")
    for l, what in ((args, "joint"), (a, "arguments-only")):
        E.check(len(l) == len(want[1]), what + ": number of arguments")
        for x, y in zip(l, want[1]): E.equal(x, y, what + ": the arguments are separated by commas, without spaces")
    E.reach("none" if not want[1] else "one" if len(want[1]) == 1 else "several")
    return [head, list(args), h, list(a)]


def texts(n):
    def run(E, M):
        text = E.string("text", E.choose("length", n + 1))
        return compare(E, M, text)
    return run


WORD = [(9, 13), (32, 32), (40, 41), (44, 44)]


def shaped(most):
    """head(args) with symbolic names and spacing, garbage behind; printing the parts parses to the same"""
    def run(E, M):
        head = E.string("head", 1 + E.choose("head length", 2), WORD)
        n = E.choose("arguments", most + 1)
        names = [E.string("arg%d" % i, 1 + E.choose("length%d" % i, 2), WORD) for i in range(n)]
        sp = lambda k: E.lit(" " * E.choose("spaces%d" % k, 2 if n > 2 else 3))
        text = head + "(" + sp(0)
        for i, x in enumerate(names): text = text + (E.lit(",") if i else E.lit("")) + (sp(2 * i) if i else E.lit("")) + x + sp(2 * i + 1)
        text = text + ")" + E.string("rest", E.choose("rest length", 2))
        out = compare(E, M, text)
        E.check(len(out[1]) == n, "as many arguments as written")
        E.equal(out[0], head, "the head as written")
        for x, y in zip(out[1], names): E.equal(x, y, "the arguments as written")
        again = out[0] + "(" + E.lit(", ").join(out[1]) + ")"
        r = M.parse_proposition(again)
        E.equal(r[0], head, "formatted again: the head")
        E.check(len(r[1]) == n, "formatted again: number of arguments")
        for x, y in zip(r[1], names): E.equal(x, y, "formatted again: the arguments")
        E.reach("printed")
        return out + [r[0], list(r[1])]
    return run


def main(tier, V):
    t = tier == "thorough"
    n, k = (11, 4) if t else (8, 3)
    return explore.run(PROP, tier, [
        ("texts", texts(n), "every text of at most %d characters" % n, ["error", "none", "one", "several"], 800 if t else 200),
        ("shaped", shaped(k), "head(arguments) with names of 1-2 characters, at most %d arguments, up to two spaces around each, one character behind" % k, ["printed", "none", "several"], 800 if t else 200),
    ], ASSUMPTIONS, V)
