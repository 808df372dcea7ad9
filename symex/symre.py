"""A symbolic model of the `re` module.

Plain strings go to the real `re`.  A SymWord is matched by a backtracking
interpreter of the parsed pattern (the tree `re` itself parses), each test of
a character being a solver-decided branch.  Used in place of `re` by the
modules of the code under test, while exploring only.
"""
import re as _re
import re._parser as _parser
from re._constants import (
    LITERAL, NOT_LITERAL, IN, ANY, BRANCH, SUBPATTERN, MAX_REPEAT, MIN_REPEAT, AT, NEGATE,
    RANGE, CATEGORY, MAXREPEAT, AT_BEGINNING, AT_END, AT_BEGINNING_STRING, AT_END_STRING,
    POSSESSIVE_REPEAT, ASSERT, ASSERT_NOT, GROUPREF,
)
from .values import SymWord, SymSym, Eq, Or, Ite, Sum, Unsupported, decode_symbol

_REPR = [decode_symbol(0, None), decode_symbol(1, None), decode_symbol(4000, None)]


def _symbolic(s):
    return isinstance(s, (SymWord, SymSym))


def _word(s):
    return s if isinstance(s, SymWord) else SymWord((s,)) if isinstance(s, SymSym) else SymWord(s)


def _test(c, pred):
    """Does the character satisfy the predicate: a Boolean, maybe symbolic."""
    if isinstance(c, str):
        return pred(c)
    if c.alpha is not None:
        ok = [a for a in c.alpha if pred(a)]
        if len(ok) == len(c.alpha):
            return True
        return Or([Eq(c, a) for a in ok] or [False])
    vs = {pred(a) for a in _REPR}
    if len(vs) != 1:
        raise Unsupported("regular expression telling apart letters of an unbounded alphabet")
    return vs.pop()


class SymPattern:
    def __init__(self, real):
        self.real = real
        self._tree = None

    def __getattr__(self, name):
        return getattr(self.real, name)

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        return isinstance(o, SymPattern) and self.real == o.real

    def __hash__(self):
        return hash(self.real)

    # -- matching
    def _pred(self, op, av):
        if op is LITERAL:
            return self._item(op, av)
        if op is NOT_LITERAL:
            f = self._item(LITERAL, av)
            return lambda a: not f(a)
        if op is ANY:
            dotall = self.real.flags & _re.DOTALL
            return lambda a: bool(dotall) or a != "\n"
        if op is IN:
            neg = bool(av) and av[0][0] is NEGATE
            items = [self._item(o, v) for o, v in (av[1:] if neg else av)]
            return lambda a: any(f(a) for f in items) != neg
        return None

    def _item(self, op, av):
        f = self._item1(op, av)
        if self.real.flags & _re.IGNORECASE:
            return lambda a: any(f(x) for x in (a, a.lower(), a.upper()))
        return f

    def _item1(self, op, av):
        if op is LITERAL:
            return lambda a: ord(a) == av
        if op is RANGE:
            return lambda a: av[0] <= ord(a) <= av[1]
        if op is CATEGORY:
            esc = {"CATEGORY_DIGIT": r"\d", "CATEGORY_NOT_DIGIT": r"\D", "CATEGORY_SPACE": r"\s",
                   "CATEGORY_NOT_SPACE": r"\S", "CATEGORY_WORD": r"\w", "CATEGORY_NOT_WORD": r"\W"}[str(av)]
            r = _re.compile(esc)
            return lambda a: r.match(a) is not None
        raise Unsupported(f"regular expression: {op}")

    def _run(self, ops, n, s, i, g, k):
        """Match ops[n:] at i, then the continuation k(i, groups)."""
        if n == len(ops):
            return k(i, g)
        op, av = ops[n]
        rest = lambda j, h: self._run(ops, n + 1, s, j, h, k)
        p = self._pred(op, av)
        if p is not None:
            if i < len(s) and _test(s[i], p):
                return rest(i + 1, g)
            return None
        if op is BRANCH:
            for alt in av[1]:
                r = self._run(alt, 0, s, i, g, rest)
                if r is not None:
                    return r
            return None
        if op is SUBPATTERN:
            num, add, rem, sub = av
            if add or rem:
                raise Unsupported("regular expression: inline flags")
            return self._run(sub, 0, s, i, g, lambda j, h: rest(j, h if num is None else {**h, num: (i, j)}))
        if op is MAX_REPEAT or op is MIN_REPEAT:
            lo, hi, sub = av

            def more(cnt, j, h):
                step = lambda: None if hi is not MAXREPEAT and cnt >= hi else \
                    self._run(sub, 0, s, j, h, lambda x, y: more(cnt + 1, x, y) if x > j or cnt < lo else None)
                if cnt < lo:
                    return step()
                if op is MIN_REPEAT:
                    r = rest(j, h)
                    return step() if r is None else r
                r = step()
                return rest(j, h) if r is None else r
            return more(0, i, g)
        if op is AT:
            if av in (AT_BEGINNING, AT_BEGINNING_STRING):
                ok = i == 0
            elif av in (AT_END, AT_END_STRING):
                ok = i == len(s) or (av is AT_END and i == len(s) - 1 and bool(s[i] == "\n"))
            else:
                raise Unsupported(f"regular expression: {av}")
            return rest(i, g) if ok else None
        if op is ASSERT or op is ASSERT_NOT:
            if av[0] != 1:
                raise Unsupported("regular expression: look behind")
            r = self._run(av[1], 0, s, i, g, lambda j, h: (j, h))
            if (r is None) == (op is ASSERT_NOT):
                return rest(i, g if r is None else r[1])
            return None
        raise Unsupported(f"regular expression: {op}")

    def _match(self, s, i, full=False):
        if self._tree is None:
            if self.real.flags & (_re.MULTILINE | _re.LOCALE):
                raise Unsupported("regular expression flags")
            self._tree = _parser.parse(self.real.pattern, self.real.flags & ~_re.UNICODE)
        r = self._run(self._tree, 0, s, i, {}, lambda j, h: (j, h) if not full or j == len(s) else None)
        return None if r is None else SymMatch(self, s, i, r[0], r[1])

    def match(self, s, *a):
        if not _symbolic(s) or a:
            return self.real.match(s, *a)
        return self._match(_word(s), 0)

    def fullmatch(self, s, *a):
        if not _symbolic(s) or a:
            return self.real.fullmatch(s, *a)
        return self._match(_word(s), 0, True)

    def search(self, s, *a):
        if not _symbolic(s) or a:
            return self.real.search(s, *a)
        s = _word(s)
        for i in range(len(s) + 1):
            m = self._match(s, i)
            if m is not None:
                return m
        return None

    def _iter(self, s):
        i, last = 0, None
        while i <= len(s):
            m = self._match(s, i)
            if m is None or (m.end() == m.start() == last):
                i += 1
                continue
            yield m
            last = m.end()
            i = m.end() if m.end() > m.start() else i + 1

    def finditer(self, s, *a):
        if not _symbolic(s) or a:
            return self.real.finditer(s, *a)
        return self._iter(_word(s))

    def findall(self, s, *a):
        if not _symbolic(s) or a:
            return self.real.findall(s, *a)
        n = self.real.groups
        return [m.group(0) if n == 0 else m.group(1) if n == 1 else m.groups("") for m in self._iter(_word(s))]

    def sub(self, repl, s, *a):
        if not _symbolic(s) or a:
            return self.real.sub(repl, s, *a)
        if not callable(repl) and "\\" in repl:
            raise Unsupported("regular expression: template with groups")
        s = _word(s)
        out, i = SymWord(()), 0
        for m in self._iter(s):
            r = repl(m) if callable(repl) else repl
            out = out + s[i:m.start()] + _word(r)
            i = m.end()
        return out + s[i:]

    def split(self, s, *a):
        if not _symbolic(s) or a or self.real.groups:
            return self.real.split(s, *a)
        s = _word(s)
        out, i = [], 0
        for m in self._iter(s):
            out.append(s[i:m.start()])
            i = m.end()
        return out + [s[i:]]


class SymMatch:
    def __init__(self, p, s, i, j, groups):
        self.re, self.string, self._g = p, s, {0: (i, j), **groups}

    def _n(self, n):
        return self.re.real.groupindex[n] if isinstance(n, str) else n

    def span(self, n=0):
        return self._g.get(self._n(n), (-1, -1))

    def start(self, n=0):
        return self.span(n)[0]

    def end(self, n=0):
        return self.span(n)[1]

    def _one(self, n, d=None):
        i, j = self.span(n)
        if i < 0:
            return d
        w = self.string[i:j]
        # as plain a value as possible
        return "".join(w.chars) if all(isinstance(c, str) for c in w.chars) else w

    def group(self, *ns):
        if len(ns) <= 1:
            return self._one(ns[0] if ns else 0)
        return tuple(self._one(n) for n in ns)

    __getitem__ = group

    def groups(self, d=None):
        return tuple(self._one(n, d) for n in range(1, self.re.real.groups + 1))

    def groupdict(self, d=None):
        return {k: self._one(k, d) for k in self.re.real.groupindex}

    def __bool__(self):
        return True


class SymRe:
    """Stands for the module `re`."""

    def __init__(self):
        self.__name__ = "re"

    def __getattr__(self, name):
        return getattr(_re, name)

    def compile(self, p, flags=0):
        if isinstance(p, SymPattern):
            return p
        return SymPattern(_re.compile(p, flags))

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def split(self, p, s, *a, **k):
        return self.compile(p).split(s, *a) if not k else _re.split(p, s, *a, **k)

    def sub(self, p, r, s, *a, **k):
        return self.compile(p).sub(r, s, *a) if not k else _re.sub(p, r, s, *a, **k)


def sym_ord(c):
    if isinstance(c, SymWord) and len(c) == 1:
        c = c[0]
    if isinstance(c, SymSym):
        c = c.concretize()
    return ord(c)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class SymInt(metaclass=_IntMeta):
    """Stands for `int`: also converts a word of symbolic digits."""

    def __new__(cls, *a, **k):
        if len(a) == 1 and not k and _symbolic(a[0]):
            w = _word(a[0])
            r = 0
            for c in w:
                if isinstance(c, str):
                    r = r * 10 + int(c)
                    continue
                if c.alpha is None or not _test(c, str.isdigit):
                    raise ValueError("invalid literal for int()")
                r = r * 10 + Sum([Ite(Eq(c, x), int(x), 0) for x in c.alpha if x.isdigit()])
            if not len(w):
                raise ValueError("invalid literal for int()")
            return r
        return int(*a, **k)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str) or _symbolic(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, str)

    def __getattr__(cls, name):
        return getattr(str, name)

    def __call__(cls, *a, **k):
        if len(a) == 1 and _symbolic(a[0]) and not k:
            return a[0]
        return str(*a, **k)


class SymStr(metaclass=_StrMeta):
    """Stands for `str`: symbolic words are strings."""


def install():
    """Import the code under test with the model of `re` in place of `re`."""
    import importlib
    import pkgutil
    import sys
    import pybgl
    names = [m.name for m in pkgutil.iter_modules(pybgl.__path__)]
    for n in names:                       # what the modules import themselves
        try:
            importlib.import_module("pybgl." + n)
        except Exception:
            pass
    for n in [n for n in sys.modules if n == "pybgl" or n.startswith("pybgl.")]:
        del sys.modules[n]
    real = sys.modules["re"]
    sys.modules["re"] = SymRe()
    try:
        for n in names:
            try:
                m = importlib.import_module("pybgl." + n)
            except Exception:
                continue
            m.ord = sym_ord
            m.int = SymInt
            m.str = SymStr
    finally:
        sys.modules["re"] = real
