"""Symbolic strings for executing real Python code: a string of known length whose characters are concrete code
points or Z3 bit-vectors. Every decision on a symbolic character is a branch of the current path (see explore.py)."""
import re as _re
import builtins as _b
try:
    from re import _parser as _sp, _constants as _sc
except ImportError:
    import sre_parse as _sp, sre_constants as _sc
import z3

BITS = 21
PATH = None  # the current path; set by explore.py


class Unsupported(BaseException):
    """The encoding has no model of this operation."""


def _lit(c):
    return z3.BitVecVal(c, BITS)


_ranges = {}


def ranges_of(key, pred):
    """code point ranges on which pred(chr) holds, computed once"""
    if key not in _ranges:
        out, start = [], None
        for c in range(0x110000):
            v = bool(pred(chr(c)))
            if v and start is None:
                start = c
            if not v and start is not None:
                out.append((start, c - 1)); start = None
        if start is not None:
            out.append((start, 0x10FFFF))
        _ranges[key] = out
    return _ranges[key]


def in_ranges(c, rs):
    """whether code point c lies in one of the ranges (a branch if symbolic)"""
    if isinstance(c, int):
        return any(a <= c <= b for a, b in rs)
    if not rs:
        return False
    return PATH.branch(z3.Or([c == _lit(a) if a == b else z3.And(z3.UGE(c, _lit(a)), z3.ULE(c, _lit(b))) for a, b in rs]))


def same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b:
        return True
    return PATH.branch((a if not isinstance(a, int) else _lit(a)) == (b if not isinstance(b, int) else _lit(b)))


def is_space(c):
    return in_ranges(c, ranges_of("space", _b.str.isspace))


def eq_formula(a, b):
    """z3 formula (or bool) of equality of two strings"""
    a, b = S(a).c, S(b).c
    if len(a) != len(b):
        return False
    fs = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
        elif x is not y:
            fs.append((x if not isinstance(x, int) else _lit(x)) == (y if not isinstance(y, int) else _lit(y)))
    return z3.And(fs) if fs else True


class Meta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or type(x) is _b.str

    def __subclasscheck__(cls, x):
        return type.__subclasscheck__(cls, x) or x is _b.str

    def __repr__(cls):
        return "<class 'str'>"


def S(x):
    return x if type(x) is SymStr else SymStr._of(tuple(map(ord, x)))


def need(x, what="argument"):
    if not isinstance(x, SymStr):
        raise TypeError("%s must be str, not %s" % (what, type(x).__name__))
    return S(x)


def to_str(x):
    """str(x)"""
    if isinstance(x, SymStr):
        return S(x)
    m = type(x).__str__
    if m is object.__str__:
        return to_repr(x)
    if isinstance(x, BaseException):
        if m is BaseException.__str__ and type(x).__str__ is BaseException.__str__:
            return to_str(x.args[0]) if len(x.args) == 1 else to_str(tuple(x.args)) if x.args else S("")
        return S(_b.str(x))
    if isinstance(x, (list, tuple, dict, set, frozenset)) and m in (list.__str__, tuple.__str__, dict.__str__):
        return to_repr(x)
    r = m(x)
    return need(r, "__str__ result")


def to_repr(x):
    if isinstance(x, SymStr):
        x = S(x)
        if x.concrete():
            return S(_b.repr(x.text()))
        for c in x.c:  # quoting depends on these; everything else symbolic is taken as printable
            if not isinstance(c, int):
                raise Unsupported("repr() of a symbolic string")
    t = type(x)
    if t in (list, tuple, set, frozenset, dict):
        if t is dict:
            items = [to_repr(k) + ": " + to_repr(v) for k, v in x.items()]
        else:
            items = [to_repr(v) for v in x]
        body = S(", ").join(items)
        if t is list: return "[" + body + "]"
        if t is tuple: return "(" + body + ("," if len(items) == 1 else "") + ")"
        if t is dict: return "{" + body + "}"
        if t is set: return "{" + body + "}" if items else S("set()")
        return "frozenset({" + body + "})" if items else S("frozenset()")
    return need(t.__repr__(x), "__repr__ result")


def to_format(x, spec=""):
    spec = S(spec).text()
    if isinstance(x, SymStr):
        x = S(x)
        if not spec:
            return x
        m = _re.fullmatch(r"(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?", spec, _re.S)
        if not m:
            raise Unsupported("format spec " + spec)
        if m.group(4): x = x[:int(m.group(4))]
        w, f = int(m.group(3) or 0), m.group(1) or " "
        return {"<": x.ljust, ">": x.rjust, "^": x.center, None: x.ljust}[m.group(2)](w, f)
    if type(x).__format__ is object.__format__:
        if spec:
            raise TypeError("unsupported format string passed to object.__format__")
        return to_str(x)
    r = type(x).__format__(x, spec)
    return S(r)


class SymStr(metaclass=Meta):
    __slots__ = ("c",)

    def __new__(cls, x="", *a):
        if a:
            raise Unsupported("decoding bytes")
        return to_str(x)

    @staticmethod
    def _of(c):
        s = object.__new__(SymStr)
        s.c = c
        return s

    # --- host side
    def concrete(self):
        return all(isinstance(c, int) for c in self.c)

    def text(self):
        if not self.concrete():
            raise Unsupported("a symbolic string where a concrete one is needed")
        return "".join(map(chr, self.c))

    def __repr__(self):
        return "".join(chr(c) if isinstance(c, int) else "<%s>" % c for c in self.c)

    __str__ = __repr__

    # --- the string operations
    def __len__(self): return len(self.c)
    def __bool__(self): return bool(self.c)
    def __hash__(self): return len(self.c)

    def __iter__(self):
        return iter([SymStr._of((c,)) for c in self.c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr._of(self.c[i])
        return SymStr._of((self.c[i],))

    def __add__(self, o):
        if not isinstance(o, SymStr):
            raise TypeError('can only concatenate str (not "%s") to str' % type(o).__name__)
        return SymStr._of(self.c + S(o).c)

    def __radd__(self, o):
        if not isinstance(o, SymStr):
            raise TypeError("unsupported operand type(s) for +")
        return SymStr._of(S(o).c + self.c)

    def __mul__(self, n): return SymStr._of(self.c * n)
    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, SymStr):
            return NotImplemented
        o = S(o)
        return len(self.c) == len(o.c) and all(same(a, b) for a, b in zip(self.c, o.c))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _less(self, o):
        for a, b in zip(self.c, o.c):
            if same(a, b):
                continue
            if isinstance(a, int) and isinstance(b, int):
                return a < b
            return PATH.branch(z3.ULT(a if not isinstance(a, int) else _lit(a), b if not isinstance(b, int) else _lit(b)))
        return len(self.c) < len(o.c)

    def __lt__(self, o): return self._less(need(o))
    def __gt__(self, o): return need(o)._less(self)
    def __le__(self, o): return not need(o)._less(self)
    def __ge__(self, o): return not self._less(need(o))

    def _at(self, sub, i):
        return i >= 0 and i + len(sub) <= len(self.c) and all(same(self.c[i + k], sub[k]) for k in range(len(sub)))

    def _span(self, a, b):
        return slice(a, b).indices(len(self.c))[:2]

    def __contains__(self, o): return self.find(need(o)) >= 0

    def find(self, sub, a=None, b=None):
        sub = need(sub).c
        a0, b0 = self._span(a, b)
        if (a or 0) > len(self.c): return -1
        for i in range(a0, b0 - len(sub) + 1):
            if self._at(sub, i): return i
        return -1

    def rfind(self, sub, a=None, b=None):
        sub = need(sub).c
        a0, b0 = self._span(a, b)
        if (a or 0) > len(self.c): return -1
        for i in range(b0 - len(sub), a0 - 1, -1):
            if self._at(sub, i): return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0: raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0: raise ValueError("substring not found")
        return r

    def count(self, sub, a=None, b=None):
        sub = need(sub)
        a0, b0 = self._span(a, b)
        if not sub: return max(0, b0 - a0 + 1)
        n = 0
        while True:
            a0 = self.find(sub, a0, b0)
            if a0 < 0: return n
            n += 1; a0 += len(sub)

    def startswith(self, p, a=None, b=None):
        s = SymStr._of(self.c[slice(a, b)])
        return any(s._at(need(x).c, 0) for x in (p if isinstance(p, tuple) else (p,)))

    def endswith(self, p, a=None, b=None):
        s = SymStr._of(self.c[slice(a, b)])
        return any(s._at(need(x).c, len(s.c) - len(x)) for x in (p if isinstance(p, tuple) else (p,)))

    def removeprefix(self, p): return self[len(p):] if self.startswith(p) else self
    def removesuffix(self, p): return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            if not isinstance(x, SymStr):
                raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
            if i: out.extend(self.c)
            out.extend(S(x).c)
        return SymStr._of(tuple(out))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur, i = [], [], 0
            n = len(self.c)
            while i < n:
                while i < n and is_space(self.c[i]): i += 1
                if i == n: break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(self[i:].rstrip()); return out
                j = i
                while j < n and not is_space(self.c[j]): j += 1
                out.append(self[i:j]); i = j
            return out
        sep = need(sep)
        if not sep: raise ValueError("empty separator")
        out, i = [], 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.find(sep, i)
            if j < 0: break
            out.append(self[i:j]); i = j + len(sep)
        return out + [self[i:]]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0: return self.split(sep)
        if sep is None:
            return [x[::-1] for x in self[::-1].split(None, maxsplit)][::-1]
        out, i = [], len(self)
        while len(out) < maxsplit:
            j = self.rfind(sep, 0, i)
            if j < 0: break
            out.append(self[j + len(sep):i]); i = j
        return [self[:i]] + out[::-1]

    def splitlines(self, keepends=False):
        out, i, n = [], 0, len(self.c)
        brk = [(10, 13), (0x1c, 0x1e), (0x85, 0x85), (0x2028, 0x2029)]
        while i < n:
            j = i
            while j < n and not in_ranges(self.c[j], brk): j += 1
            e = j
            if j < n:
                j += 2 if same(self.c[j], 13) and j + 1 < n and same(self.c[j + 1], 10) else 1
            out.append(self[i:j] if keepends else self[i:e]); i = j
        return out

    def partition(self, sep):
        i = self.find(sep)
        return (self, S(""), S("")) if i < 0 else (self[:i], S(sep), self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return (S(""), S(""), self) if i < 0 else (self[:i], S(sep), self[i + len(sep):])

    def replace(self, old, new, count=-1):
        old, new = need(old), need(new)
        if not old:
            out = []
            for k, c in enumerate(self.c):
                if count < 0 or k < count: out.extend(new.c)
                out.append(c)
            if count < 0 or len(self.c) < count: out.extend(new.c)
            return SymStr._of(tuple(out))
        return new.join(self.split(old, count))

    def _strip(self, chars, left, right):
        test = is_space if chars is None else (lambda c, s=S(chars).c: any(same(c, x) for x in s))
        i, j = 0, len(self.c)
        while left and i < j and test(self.c[i]): i += 1
        while right and i < j and test(self.c[j - 1]): j -= 1
        return self[i:j]

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def _pad(self, w, f):
        f = S(f)
        if len(f) != 1: raise TypeError("The fill character must be exactly one character long")
        return max(0, w - len(self.c)), f

    def ljust(self, w, f=" "):
        n, f = self._pad(w, f); return self + f * n

    def rjust(self, w, f=" "):
        n, f = self._pad(w, f); return f * n + self

    def center(self, w, f=" "):
        n, f = self._pad(w, f)
        l = n // 2 + (n & w & 1)
        return f * l + self + f * (n - l)

    def zfill(self, w):
        n = max(0, w - len(self.c))
        if self.c and in_ranges(self.c[0], [(43, 43), (45, 45)]): return self[:1] + "0" * n + self[1:]
        return "0" * n + self

    def _all(self, name):
        rs = ranges_of(name, getattr(_b.str, name))
        return bool(self.c) and all([in_ranges(c, rs) for c in self.c])

    def isspace(self): return self._all("isspace")
    def isalpha(self): return self._all("isalpha")
    def isalnum(self): return self._all("isalnum")
    def isdigit(self): return self._all("isdigit")
    def isdecimal(self): return self._all("isdecimal")
    def isnumeric(self): return self._all("isnumeric")
    def isascii(self): return all([in_ranges(c, [(0, 127)]) for c in self.c])

    def isidentifier(self):
        if not self.c: return False
        return in_ranges(self.c[0], ranges_of("id0", _b.str.isidentifier)) and \
            all([in_ranges(c, ranges_of("id1", lambda x: ("a" + x).isidentifier())) for c in self.c[1:]])

    def _case(self, name):
        f = getattr(_b.str, name)
        out = []
        for c in self.c:
            if isinstance(c, int):
                out.extend(map(ord, f(chr(c)))); continue
            ch = ranges_of("case" + name, lambda x: f(x) != x)
            if not in_ranges(c, ch):
                out.append(c); continue
            lo, hi = (65, 90) if f("A") == "a" else (97, 122)
            if in_ranges(c, [(lo, hi)]):
                out.append(c + 32 if lo == 65 else c - 32)
            else:
                raise Unsupported("case mapping of a symbolic character outside ASCII")
        return SymStr._of(tuple(out))

    def lower(self): return self._case("lower")
    def upper(self): return self._case("upper")
    def casefold(self): return self._case("casefold")
    def swapcase(self): return self._case("swapcase") if self.concrete() else self._no("swapcase")
    def title(self): return S(self.text().title()) if self.concrete() else self._no("title")
    def capitalize(self): return self[:1].upper() + self[1:].lower()
    def expandtabs(self, n=8): return S(self.text().expandtabs(n)) if self.concrete() else self._no("expandtabs")
    def encode(self, *a): return self.text().encode(*a)

    def _no(self, what): raise Unsupported(what + " of a symbolic string")

    def islower(self): return self.text().islower()
    def isupper(self): return self.text().isupper()

    def translate(self, table):
        out = []
        for c in self.c:
            if isinstance(c, int):
                r = table.get(c, c)
            else:
                r = c
                for k, v in table.items():
                    if same(c, k): r = v; break
            if r is None: continue
            if isinstance(r, SymStr): out.extend(S(r).c)
            else: out.append(r)
        return SymStr._of(tuple(out))

    @staticmethod
    def maketrans(x, y=None, z=None):
        if y is None:
            return {(S(k).c[0] if isinstance(k, SymStr) else k): v for k, v in x.items()}
        d = dict(zip(S(x).c, S(y).c))
        if z is not None: d.update({c: None for c in S(z).c})
        return d

    def __mod__(self, args):
        fmt = self.text()
        t = args if isinstance(args, tuple) else (args,)
        out, pos, k = S(""), 0, 0
        for m in _re.finditer(r"%(?:\((\w+)\))?([-0 #+]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])", fmt):
            out = out + fmt[pos:m.start()]; pos = m.end()
            if m.group(5) == "%":
                out = out + "%"; continue
            if m.group(1):
                v = next(val for key, val in args.items() if S(key).text() == m.group(1))
            else:
                if k >= len(t): raise TypeError("not enough arguments for format string")
                v = t[k]; k += 1
            if m.group(5) == "s": v = to_str(v)
            elif m.group(5) == "r": v = to_repr(v)
            else:
                out = out + (m.group(0) if not m.group(1) else "%" + m.group(2) + (m.group(3) or "") + m.group(5)) % v; continue
            if m.group(4): v = v[:int(m.group(4))]
            if m.group(3): v = v.ljust(int(m.group(3))) if "-" in m.group(2) else v.rjust(int(m.group(3)))
            out = out + v
        if k < len(t) and not isinstance(args, dict) and isinstance(args, tuple):
            raise TypeError("not all arguments converted during string formatting")
        return out + fmt[pos:]

    def __rmod__(self, o):
        return S(o) % self

    def format(self, *args, **kw):
        import string
        out, auto = S(""), 0
        for lit, field, spec, conv in string.Formatter().parse(self.text()):
            out = out + lit
            if field is None: continue
            m = _re.match(r"[^.\[]*", field)
            key, rest = m.group(0), field[m.end():]
            if key == "": v = args[auto]; auto += 1
            elif key.isdigit(): v = args[int(key)]
            else: v = kw[key]
            for p in _re.finditer(r"\.([^.\[]+)|\[([^\]]+)\]", rest):
                if p.group(1): v = getattr(v, p.group(1))
                else: v = v[int(p.group(2)) if p.group(2).isdigit() else p.group(2)]
            v = to_str(v) if conv == "s" else to_repr(v) if conv in ("r", "a") else v
            if spec and "{" in spec:
                spec = S(spec).format(*args[auto:], **kw)
            out = out + to_format(v, spec or "")
        return out

    def format_map(self, d): return self.format(**{S(k).text(): v for k, v in d.items()})
    def __format__(self, spec): return _b.format(self.text(), spec)
    def __fspath__(self): return self.text()


# ------------------------------------------------------------------ regular expressions
def _category(cat, flags):
    name = _b.str(cat).split("CATEGORY_")[1]
    neg = name.startswith("NOT_")
    base = {"SPACE": r"\s", "DIGIT": r"\d", "WORD": r"\w"}[name[4:] if neg else name]
    f = flags & _re.ASCII
    r = ranges_of((base, bool(f)), _re.compile(base, f).match)
    return r, neg


class Pattern:
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, Pattern):
            pattern, flags = pattern.pattern, pattern.flags
        self.pattern = S(pattern)
        self._p = _sp.parse(self.pattern.text(), int(flags))
        self.flags = self._p.state.flags
        if self.flags & (_re.IGNORECASE | _re.LOCALE):
            raise Unsupported("regular expression flags")
        self.groups = self._p.state.groups - 1
        self.groupindex = dict(self._p.state.groupdict)

    # matching: continuation-passing, in the order of Python's matcher
    def _in(self, items, c):
        neg, r = False, False
        for op, av in items:
            if op is _sc.NEGATE: neg = True
            elif op is _sc.LITERAL: r = r or same(c, av)
            elif op is _sc.RANGE: r = r or in_ranges(c, [av])
            elif op is _sc.CATEGORY:
                rs, n = _category(av, self.flags)
                r = r or (in_ranges(c, rs) != n)
            else: raise Unsupported("regular expression set %s" % op)
        return r != neg

    def _m(self, seq, k, t, i, end, g, cont):
        """match seq[k:] at t[i], then cont(i, g)"""
        if k == len(seq): return cont(i, g)
        op, av = seq[k]
        nxt = lambda j, h: self._m(seq, k + 1, t, j, end, h, cont)
        if op in (_sc.LITERAL, _sc.NOT_LITERAL, _sc.ANY, _sc.IN):
            if i >= end: return None
            c = t[i]
            if op is _sc.LITERAL: ok = same(c, av)
            elif op is _sc.NOT_LITERAL: ok = not same(c, av)
            elif op is _sc.ANY: ok = bool(self.flags & _re.DOTALL) or not same(c, 10)
            else: ok = self._in(av, c)
            return nxt(i + 1, g) if ok else None
        if op is _sc.SUBPATTERN:
            grp, add, dele, sub = av
            if add or dele: raise Unsupported("inline flags")
            def close(j, h):
                return nxt(j, h if grp is None else {**h, grp: (i, j), "last": grp})
            return self._m(list(sub), 0, t, i, end, g, close)
        if op is _sc.BRANCH:
            for alt in av[1]:
                r = self._m(list(alt), 0, t, i, end, g, nxt)
                if r is not None: return r
            return None
        if op in (_sc.MAX_REPEAT, _sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            def rep(n, j, h):
                def more():
                    if hi is not _sc.MAXREPEAT and n >= hi: return None
                    return self._m(sub, 0, t, j, end, h, lambda q, hh: rep(n + 1, q, hh) if q != j or n < lo else None)
                if n < lo: return more()
                if op is _sc.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(j, h)
                r = nxt(j, h)
                return r if r is not None else more()
            return rep(0, i, g)
        if op is getattr(_sc, "POSSESSIVE_REPEAT", None):
            lo, hi, sub = av
            n, j, h = 0, i, g
            while hi is _sc.MAXREPEAT or n < hi:
                r = self._m(list(sub), 0, t, j, end, h, lambda q, hh: (q, hh))
                if r is None or (r[0] == j and n >= lo): break
                j, h = r; n += 1
            return nxt(j, h) if n >= lo else None
        if op is getattr(_sc, "ATOMIC_GROUP", None):
            r = self._m(list(av), 0, t, i, end, g, lambda q, hh: (q, hh))
            return None if r is None else nxt(*r)
        if op in (_sc.ASSERT, _sc.ASSERT_NOT):
            d, sub = av
            if d > 0:
                r = self._m(list(sub), 0, t, i, end, g, lambda q, hh: (q, hh))
            else:
                lo, hi = sub.getwidth()
                if lo != hi: raise Unsupported("look-behind")
                r = None if i < lo else self._m(list(sub), 0, t, i - lo, i, g, lambda q, hh: (q, hh) if q == i else None)
            if op is _sc.ASSERT_NOT: return nxt(i, g) if r is None else None
            return None if r is None else nxt(i, r[1])
        if op is _sc.GROUPREF:
            if g.get(av) is None: return None
            a, b = g[av]
            if i + b - a > end or not all(same(t[i + q], t[a + q]) for q in range(b - a)): return None
            return nxt(i + b - a, g)
        if op is _sc.AT:
            n = _b.str(av)
            nl = lambda p: same(t[p], 10)
            if n in ("AT_BEGINNING_STRING",) or (n == "AT_BEGINNING" and not self.flags & _re.MULTILINE): ok = i == 0
            elif n == "AT_BEGINNING": ok = i == 0 or nl(i - 1)
            elif n == "AT_END_STRING": ok = i == end
            elif n == "AT_END": ok = i == end or (nl(i) and (i + 1 == end or bool(self.flags & _re.MULTILINE)))
            elif n in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
                rs, _ = _category("CATEGORY_WORD", self.flags)
                w = lambda p: 0 <= p < end and in_ranges(t[p], rs)
                ok = (w(i - 1) != w(i)) == (n == "AT_BOUNDARY")
            else: raise Unsupported("regular expression anchor " + n)
            return nxt(i, g) if ok else None
        raise Unsupported("regular expression node %s" % op)

    def _run(self, s, i, end, full=False):
        r = self._m(list(self._p), 0, s.c, i, end, {}, lambda j, g: (j, g) if not full or j == end else None)
        return None if r is None else Match(self, s, i, r[0], r[1])

    def match(self, s, pos=0, endpos=None):
        s = need(s); return self._run(s, min(pos, len(s)), len(s) if endpos is None else min(endpos, len(s)))

    def fullmatch(self, s, pos=0, endpos=None):
        s = need(s); return self._run(s, min(pos, len(s)), len(s) if endpos is None else min(endpos, len(s)), True)

    def search(self, s, pos=0, endpos=None):
        s = need(s)
        end = len(s) if endpos is None else min(endpos, len(s))
        for i in range(pos, end + 1):
            m = self._run(s, i, end)
            if m is not None: return m
        return None

    def finditer(self, s, *a):
        s = need(s)
        out, i, must = [], 0, False
        while True:
            r = None
            for p in range(i, len(s) + 1):
                # right after an empty match, a match has to advance
                stuck = must and p == i
                q = self._m(list(self._p), 0, s.c, p, len(s), {}, lambda j, g: None if stuck and j == p else (j, g))
                if q is not None:
                    r = Match(self, s, p, q[0], q[1])
                    break
            if r is None:
                return iter(out)
            out.append(r)
            i, must = r.end(), r.end() == r.start()

    def findall(self, s, *a):
        out = []
        for m in self.finditer(s, *a):
            if self.groups == 0: out.append(m.group(0))
            elif self.groups == 1: out.append(m.group(1) if m.group(1) is not None else S(""))
            else: out.append(tuple(x if x is not None else S("") for x in m.groups()))
        return out

    def split(self, s, maxsplit=0):
        s = need(s)
        out, i, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit: break
            out.append(s[i:m.start()]); out.extend(m.groups()); i = m.end(); n += 1
        return out + [s[i:]]

    def subn(self, repl, s, count=0):
        s = need(s)
        out, i, n = S(""), 0, 0
        for m in self.finditer(s):
            if count and n >= count: break
            out = out + s[i:m.start()]
            out = out + (repl(m) if callable(repl) else m.expand(repl)); i = m.end(); n += 1
        return out + s[i:], n

    def sub(self, repl, s, count=0): return self.subn(repl, s, count)[0]


class Match:
    def __init__(self, p, s, a, b, g):
        self.re, self.string, self._g = p, s, {0: (a, b)}
        self._g.update({k: v for k, v in g.items() if k != "last"})
        self.lastindex = g.get("last")
        self.pos, self.endpos = 0, len(s)

    def _k(self, k):
        if isinstance(k, SymStr): k = self.re.groupindex[S(k).text()]
        if k > self.re.groups: raise IndexError("no such group")
        return k

    def _one(self, k, d=None):
        sp = self._g.get(self._k(k))
        return d if sp is None else self.string[sp[0]:sp[1]]

    def group(self, *ks):
        if not ks: return self._one(0)
        if len(ks) == 1: return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    def __getitem__(self, k): return self._one(k)
    def groups(self, default=None): return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))
    def groupdict(self, default=None): return {S(n): self._one(k, default) for n, k in self.re.groupindex.items()}
    def span(self, k=0): return self._g.get(self._k(k), (-1, -1))
    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]
    def __bool__(self): return True

    def expand(self, t):
        t = S(t).text()
        out, i = S(""), 0
        for m in _re.finditer(r"\\(?:g<(\w+)>|(\d)|(.))", t):
            out = out + t[i:m.start()]; i = m.end()
            k = m.group(1) or m.group(2)
            if k is None: out = out + {"n": "\n", "t": "\t"}.get(m.group(3), m.group(3))
            else: out = out + (self._one(int(k) if k.isdigit() else k) or "")
        return out + t[i:]


class ReModule:
    error = _re.error
    Pattern, Match = Pattern, Match
    A = ASCII = _re.ASCII; I = IGNORECASE = _re.IGNORECASE; M = MULTILINE = _re.MULTILINE
    S = DOTALL = _re.DOTALL; X = VERBOSE = _re.VERBOSE; U = UNICODE = _re.UNICODE
    compile = staticmethod(lambda p, flags=0: Pattern(p, flags))
    match = staticmethod(lambda p, s, flags=0: Pattern(p, flags).match(s))
    fullmatch = staticmethod(lambda p, s, flags=0: Pattern(p, flags).fullmatch(s))
    search = staticmethod(lambda p, s, flags=0: Pattern(p, flags).search(s))
    findall = staticmethod(lambda p, s, flags=0: Pattern(p, flags).findall(s))
    finditer = staticmethod(lambda p, s, flags=0: Pattern(p, flags).finditer(s))
    split = staticmethod(lambda p, s, maxsplit=0, flags=0: Pattern(p, flags).split(s, maxsplit))
    sub = staticmethod(lambda p, r, s, count=0, flags=0: Pattern(p, flags).sub(r, s, count))
    subn = staticmethod(lambda p, r, s, count=0, flags=0: Pattern(p, flags).subn(r, s, count))
    escape = staticmethod(lambda p: S(_re.escape(S(p).text())))


class StringIO:
    def __init__(self, init="", newline="\n"): self._b = S(init); self._w = False
    def write(self, x): self._b = self._b + need(x); return len(x)
    def writelines(self, xs):
        for x in xs: self.write(x)
    def getvalue(self): return self._b
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass


class IoModule:
    StringIO = StringIO
