"""Symbolic stand-ins for Python values.

Each proxy carries a term; every operator the code under test applies builds a
new term, and every place where CPython needs a concrete answer (a branch, a
hash, an index) asks the engine, which forks the path.
"""
from fractions import Fraction
from . import terms as tm
from .terms import T


class Engine:
    """The current symbolic context (None while running concretely)."""
    cur = None


class Unsupported(BaseException):
    """The code applied an operation the proxies do not model."""


def is_sym(v):
    return isinstance(v, (SymBool, SymNum, SymSym))


# ------------------------------------------------------------------- lifting
def lift(v):
    """Python or symbolic value -> term (numbers and Booleans)."""
    if isinstance(v, T):
        return v
    if isinstance(v, (SymBool, SymNum)):
        return v.t
    if isinstance(v, bool):
        return tm.const_bool(v)
    if isinstance(v, int):
        return tm.num(v, "I")
    if isinstance(v, Fraction):
        return tm.num(v, "R")
    if isinstance(v, float):
        return tm.num(Fraction(v), "R")
    raise Unsupported(f"cannot lift {type(v).__name__}")


def lift_num(v):
    t = lift(v)
    if t.sort == "B":
        t = tm.ite(t, tm.num(1, "I"), tm.num(0, "I"))
    return t


def wrap_b(t):
    if t is tm.TRUE:
        return True
    if t is tm.FALSE:
        return False
    return SymBool(t)


def wrap_n(t):
    if tm.is_const(t):
        return t.args[0]
    return SymNum(t)


_NUM = (int, float, Fraction)


class SymBool:
    __slots__ = ("t",)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return Engine.cur.branch(self.t)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrap_b(tm.and_(self.t, lift(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrap_b(tm.or_(self.t, lift(o)))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrap_b(tm.not_(tm.iff(self.t, lift(o))))
        return NotImplemented
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrap_b(tm.iff(self.t, lift(o)))
        if isinstance(o, int):
            return bool(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return Not(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def _n(self):
        return SymNum(lift_num(self.t))

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self._n() < o

    def __le__(self, o):
        return self._n() <= o

    def __gt__(self, o):
        return self._n() > o

    def __ge__(self, o):
        return self._n() >= o

    def __repr__(self):
        return f"<{self.t}>"


def _inf(v):
    return isinstance(v, float) and (v == float("inf") or v == float("-inf"))


class SymNum:
    """A symbolic int (sort I) or exact real (sort R)."""
    __slots__ = ("t",)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, t):
        self.t = t

    # comparisons
    def _cmp(self, o, f, finf):
        if _inf(o):
            return finf(o)
        if isinstance(o, _NUM) or isinstance(o, (SymNum, SymBool)):
            return wrap_b(f(self.t, lift_num(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, tm.lt, lambda x: x > 0)

    def __le__(self, o):
        return self._cmp(o, tm.le, lambda x: x > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: tm.lt(b, a), lambda x: x < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: tm.le(b, a), lambda x: x < 0)

    def __eq__(self, o):
        r = self._cmp(o, tm.eq, lambda x: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __hash__(self):
        return hash(self.concretize())

    def __bool__(self):
        return Engine.cur.branch(tm.not_(tm.eq(self.t, tm.num(0))))

    # arithmetic
    def _bin(self, o, f):
        if isinstance(o, _NUM) or isinstance(o, (SymNum, SymBool)):
            return wrap_n(f(self.t, lift_num(o)))
        return NotImplemented

    def __add__(self, o):
        if _inf(o):
            return o
        return self._bin(o, tm.add)
    __radd__ = __add__

    def __sub__(self, o):
        if _inf(o):
            return -o
        return self._bin(o, tm.sub)

    def __rsub__(self, o):
        if _inf(o):
            return o
        return self._bin(o, lambda a, b: tm.sub(b, a))

    def __mul__(self, o):
        return self._bin(o, tm.mul)
    __rmul__ = __mul__

    def __neg__(self):
        return wrap_n(tm.scale(self.t, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap_n(tm.ite(tm.lt0(self.t), tm.scale(self.t, -1), self.t))

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and self.t.sort == "I":
            return wrap_n(tm.idiv(self.t, o))
        return self.concretize() // (o.concretize() if is_sym(o) else o)

    def __rfloordiv__(self, o):
        return o // self.concretize()

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            if self.t.sort == "I":
                return wrap_n(tm.imod(self.t, o))
            q = tm.floor(tm.scale(self.t, Fraction(1, o)))
            return wrap_n(tm.sub(self.t, tm.to_real(tm.scale(q, o))))
        return self.concretize() % (o.concretize() if is_sym(o) else o)

    def __rmod__(self, o):
        return o % self.concretize()

    def __truediv__(self, o):
        if isinstance(o, _NUM) and o != 0:
            return wrap_n(tm.scale(tm.to_real(self.t), 1 / Fraction(o)))
        if isinstance(o, SymNum):
            # q = self / o  with  q * o = self  (fresh variable), o != 0
            if Engine.cur.branch(tm.eq(o.t, tm.num(0))):
                raise ZeroDivisionError("division by zero")
            return Engine.cur.divide(self.t, o.t)
        return NotImplemented

    def __rtruediv__(self, o):
        return SymNum(tm.to_real(tm.num(Fraction(o), "R"))) / self

    def __pow__(self, k):
        if isinstance(k, int) and not isinstance(k, bool) and 0 <= k <= 4:
            r = 1
            for _ in range(k):
                r = r * self
            return r
        return self.concretize() ** (k.concretize() if is_sym(k) else k)

    def __rpow__(self, b):
        return b ** self.concretize()

    def __floor__(self):
        return wrap_n(tm.floor(self.t))

    def __ceil__(self):
        return wrap_n(tm.scale(tm.floor(tm.scale(self.t, -1)), -1))

    def __trunc__(self):
        if Engine.cur.branch(tm.lt0(self.t)):
            return self.__ceil__()
        return self.__floor__()

    def concretize(self):
        return Engine.cur.concretize(self.t)

    def __index__(self):
        if self.t.sort != "I":
            raise TypeError("not an integer")
        return self.concretize()

    def __int__(self):
        if self.t.sort == "I":
            return self.concretize()
        t = self.__trunc__()
        return t.concretize() if isinstance(t, SymNum) else t

    def __float__(self):
        return float(self.concretize())

    def __repr__(self):
        return f"<{self.t}>"

    # a harness may install a function giving a text that stands for the number
    text = None

    def __str__(self):
        return SymNum.text(self) if SymNum.text else str(self.concretize())

    def __format__(self, spec):
        return SymNum.text(self) if SymNum.text and not spec else format(self.concretize(), spec)


class OpaqueNum(SymNum):
    """A symbolic int that stays symbolic inside hashed containers: its hash is
    a constant, so lookups among such numbers fork on equality instead of on
    the value.  (Containers must not mix it with concrete ints.)"""
    __slots__ = ()

    def __hash__(self):
        return 7901

    def _bin(self, o, f):
        r = SymNum._bin(self, o, f)
        return OpaqueNum(r.t) if type(r) is SymNum else r

    def __add__(self, o):
        return self._bin(o, tm.add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, tm.sub)


class SymSym:
    """An opaque symbol (a letter, a vertex name...): only equality and, when
    `ordered`, comparison mean something.  `t` is an integer code; `alpha` maps
    codes to the concrete objects they stand for (None: unbounded, every code
    k stands for the letter decode(k)).

    hash: a finite alphabet forks the path on the value (so that lookups in
    containers keyed by the real objects work); an unbounded one hashes to a
    constant, and lookups fork on equality.
    """
    __slots__ = ("t", "alpha")
    ordered = True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, t, alpha):
        self.t = t
        self.alpha = alpha

    def _other(self, o):
        if isinstance(o, SymSym):
            return o.t
        if self.alpha is not None:
            for i, x in enumerate(self.alpha):
                if type(x) is type(o) and x == o:
                    return tm.num(i)
            return None
        c = encode_symbol(o)
        return None if c is None else tm.num(c)

    def __eq__(self, o):
        x = self._other(o)
        if x is None:
            return False
        return wrap_b(tm.eq(self.t, x))

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def _ord(self, o, f):
        x = self._other(o)
        if x is None:
            return NotImplemented
        return wrap_b(f(self.t, x))

    def __lt__(self, o):
        return self._ord(o, tm.lt)

    def __le__(self, o):
        return self._ord(o, tm.le)

    def __gt__(self, o):
        return self._ord(o, lambda a, b: tm.lt(b, a))

    def __ge__(self, o):
        return self._ord(o, lambda a, b: tm.le(b, a))

    def concretize(self):
        return decode_symbol(Engine.cur.concretize(self.t), self.alpha)

    def __hash__(self):
        if self.alpha is None:
            return 7919
        return hash(self.concretize())

    def __bool__(self):
        return True

    def __len__(self):
        return 1

    # a letter is also a one-letter word
    def __iter__(self):
        return iter((self,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymWord((self,)[i])
        if i in (0, -1):
            return self
        raise IndexError("string index out of range")

    def __add__(self, o):
        return SymWord((self,)) + o

    def __radd__(self, o):
        return o + SymWord((self,))

    def isspace(self):
        return self._is(str.isspace)

    def isdigit(self):
        return self._is(str.isdigit)

    def isalpha(self):
        return self._is(str.isalpha)

    def isalnum(self):
        return self._is(str.isalnum)

    def _is(self, f):
        if self.alpha is None:
            return f(decode_symbol(0, None))
        return Or([Eq(self, a) for a in self.alpha if f(a)] or [False])

    def __str__(self):
        return str(self.concretize())

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __repr__(self):
        return f"<{self.t}>"


# Code points 0x4E00.. are used for the letters of unbounded alphabets.
_BASE = 0x4E00


def decode_symbol(k, alpha):
    if alpha is not None:
        return alpha[k]
    return chr(_BASE + k)


def encode_symbol(o):
    if isinstance(o, str) and len(o) == 1:
        return ord(o) - _BASE
    return None


# ------------------------------------------------- spec-level connectives
# They work on symbolic and on concrete values alike and never fork.
def Not(a):
    if isinstance(a, SymBool):
        return wrap_b(tm.not_(a.t))
    return not a


def _b(a):
    if isinstance(a, (bool, SymBool, T)):
        return lift(a)
    raise TypeError(f"Boolean expected, got {a!r}")


def And(*xs):
    if len(xs) == 1 and not isinstance(xs[0], (bool, SymBool)):
        xs = tuple(xs[0])
    return wrap_b(tm.and_(*[_b(x) for x in xs]))


def Or(*xs):
    if len(xs) == 1 and not isinstance(xs[0], (bool, SymBool)):
        xs = tuple(xs[0])
    return wrap_b(tm.or_(*[_b(x) for x in xs]))


def Implies(a, b):
    return wrap_b(tm.or_(tm.not_(_b(a)), _b(b)))


def Iff(a, b):
    return wrap_b(tm.iff(_b(a), _b(b)))


def Xor(a, b):
    return Not(Iff(a, b))


def Ite(c, a, b):
    """Conditional value (numbers or Booleans) without forking."""
    c = _b(c)
    if c is tm.TRUE:
        return a
    if c is tm.FALSE:
        return b
    x, y = lift(a), lift(b)
    if x.sort == "B" and y.sort == "B":
        return wrap_b(tm.ite(c, x, y))
    return wrap_n(tm.ite(c, lift_num(x), lift_num(y)))


def Eq(a, b):
    if isinstance(a, SymSym) or isinstance(b, SymSym):
        return a == b if isinstance(a, SymSym) else b == a
    if isinstance(a, (SymBool, SymNum)) or isinstance(b, (SymBool, SymNum)):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return False
        if _inf(a) or _inf(b):
            return False
        return wrap_b(tm.eq(lift(a), lift(b)))
    return a == b


def Sum(xs):
    r = 0
    for x in xs:
        r = r + Ite(x, 1, 0) if isinstance(x, (bool, SymBool)) else r + x
    return r


def Min(*xs):
    if len(xs) == 1:
        xs = tuple(xs[0])
    r = xs[0]
    for x in xs[1:]:
        r = Ite(_lt(x, r), x, r)
    return r


def Max(*xs):
    if len(xs) == 1:
        xs = tuple(xs[0])
    r = xs[0]
    for x in xs[1:]:
        r = Ite(_lt(r, x), x, r)
    return r


def _lt(a, b):
    return a < b


def Abs(a):
    return Ite(a < 0, -a, a)


def Distinct(xs):
    xs = list(xs)
    return And([Not(Eq(a, b)) for i, a in enumerate(xs) for b in xs[:i]] or [True])


class SymWord:
    """A word of concrete length over symbolic letters, with the part of the
    `str` protocol that treats a word as an immutable sequence."""
    __slots__ = ("chars",)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, chars):
        self.chars = tuple(chars)

    def __iter__(self):
        return iter(self.chars)

    def __reversed__(self):
        return reversed(self.chars)

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymWord(self.chars[i])
        return self.chars[i]

    def _seq(self, o):
        if isinstance(o, SymWord):
            return o.chars
        if isinstance(o, (str, tuple, list)):
            return tuple(o)
        if isinstance(o, SymSym):
            return (o,)
        return None

    def __add__(self, o):
        s = self._seq(o)
        return NotImplemented if s is None else SymWord(self.chars + s)

    def __radd__(self, o):
        s = self._seq(o)
        return NotImplemented if s is None else SymWord(s + self.chars)

    def __eq__(self, o):
        s = self._seq(o)
        if s is None or len(s) != len(self.chars):
            return False
        return And([Eq(a, b) for a, b in zip(self.chars, s)] or [True])

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __lt__(self, o):
        s = self._seq(o)
        if s is None:
            return NotImplemented
        return lex_lt(self.chars, s)

    def __gt__(self, o):
        s = self._seq(o)
        if s is None:
            return NotImplemented
        return lex_lt(s, self.chars)

    def __le__(self, o):
        return Not(self.__gt__(o))

    def __ge__(self, o):
        return Not(self.__lt__(o))

    def startswith(self, p):
        s = self._seq(p)
        return self[:len(s)] == SymWord(s)

    def endswith(self, p):
        s = self._seq(p)
        return (self[len(self) - len(s):] if len(s) <= len(self) else SymWord(())) == SymWord(s)

    def _at(self, i, x):
        """formula: the word x occurs at position i"""
        return And([Eq(a, b) for a, b in zip(self.chars[i:], x)] or [True])

    def find(self, x):
        x = self._seq(x)
        for i in range(len(self) - len(x) + 1):
            if self._at(i, x):
                return i
        return -1

    def rfind(self, x):
        x = self._seq(x)
        for i in reversed(range(len(self) - len(x) + 1)):
            if self._at(i, x):
                return i
        return -1

    def index(self, x):
        i = self.find(x)
        if i < 0:
            raise ValueError("not found")
        return i

    def _pieces(self, sep):
        out, i, start = [], 0, 0
        while i + len(sep) <= len(self):
            if self._at(i, sep):
                out.append(self[start:i])
                i = start = i + len(sep)
            else:
                i += 1
        return out + [self[start:]]

    def replace(self, old, new):
        old, new = self._seq(old), self._seq(new)
        if not old:
            return self.concretize().replace("", SymWord(new).concretize())
        r = ()
        for i, p in enumerate(self._pieces(old)):
            r += (new if i else ()) + p.chars
        return SymWord(r)

    def split(self, sep=None):
        if sep is None:
            sp = SymWord([" " if any_of(a, " \t\n\r") else a for a in self.chars])
            return [p for p in sp._pieces((" ",)) if p]
        return self._pieces(self._seq(sep))

    def lstrip(self, chars=" \t\n\r"):
        i = 0
        while i < len(self) and any_of(self.chars[i], chars):
            i += 1
        return self[i:]

    def rstrip(self, chars=" \t\n\r"):
        i = len(self)
        while i and any_of(self.chars[i - 1], chars):
            i -= 1
        return self[:i]

    def strip(self, chars=" \t\n\r"):
        return self.lstrip(chars).rstrip(chars)

    def __contains__(self, x):
        if self._seq(x) is None:
            return False
        return self.find(x) >= 0

    def count(self, x):
        return sum(1 for a in self.chars if a == x)

    def __hash__(self):
        if all(isinstance(a, SymSym) and a.alpha is None for a in self.chars):
            return 7907 + len(self.chars)
        return hash(self.concretize())

    def concretize(self):
        return "".join(a.concretize() if isinstance(a, SymSym) else a for a in self.chars)

    def __str__(self):
        return self.concretize()

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __repr__(self):
        return f"SymWord{self.chars}"


def any_of(a, chars):
    """Branches: is the letter a one of these?"""
    return bool(Or([Eq(a, c) for c in chars] or [False]))


def lex_lt(a, b):
    """Lexicographic a < b as one formula."""
    r = len(a) < len(b)
    for x, y in reversed(list(zip(a, b))):
        r = Or(x < y, And(Eq(x, y), r))
    return r
