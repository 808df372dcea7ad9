"""Hash-consed first-order terms (Bool / Int / Real) with linear normal forms.

This is the term language of the symbolic executor.  Every operation performed
by the code under test on a symbolic value builds one of these terms; terms are
converted lazily to z3 when (and only when) a query has to be decided.

Re-executing the real code along another path rebuilds the same terms, so
hash-consing makes the (slow) z3 conversion happen once per distinct term.
"""
from fractions import Fraction

_TAB = {}


class T:
    __slots__ = ("op", "args", "sort", "h", "vs", "z", "c", "neg")

    def __init__(self, op, args, sort, h, vs):
        self.op = op
        self.args = args
        self.sort = sort
        self.h = h
        self.vs = vs
        self.z = None
        self.c = None
        self.neg = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):  # identity: terms are interned
        return self is o

    def __repr__(self):
        return show(self)


_EMPTY = frozenset()


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _TAB.get(key)
    if t is None:
        vs = set()
        hs = [op, sort]
        for a in args:
            if isinstance(a, T):
                vs |= a.vs
                hs.append(a.h)
            elif isinstance(a, tuple):       # (coef, atom) of a linear form
                vs |= a[1].vs
                hs.append((a[0], a[1].h))
            else:
                hs.append(a)
        if op == "var":
            vs.add(args[0])
        t = T(op, args, sort, hash(tuple(hs)), frozenset(vs) if vs else _EMPTY)
        _TAB[key] = t
    return t


# --------------------------------------------------------------- constants
TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")


def const_bool(b):
    return TRUE if b else FALSE


def var(name, sort):
    if sort == "B":
        return _mk("var", (name,), "B")
    return lin({_mk("var", (name,), sort): 1}, 0, sort)


def is_const(t):
    return t is TRUE or t is FALSE or (t.op == "lin" and len(t.args) == 1)


def const_value(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return t.args[0]


# --------------------------------------------------------- linear arithmetic
def lin(coefs, k, sort):
    """coefs: {atom: coefficient}.  args = (k, (c1, atom1), ...) sorted."""
    items = [(c, a) for a, c in coefs.items() if c != 0]
    if len(items) > 1:
        items.sort(key=lambda p: p[1].h)
    return _mk("lin", (k,) + tuple(items), sort)


def num(v, sort=None):
    if sort is None:
        if isinstance(v, int):
            sort = "I"
        else:
            sort = "R"
            v = Fraction(v)
    if sort == "R":
        v = Fraction(v)
        if v.denominator == 1:
            v = int(v)
    return _mk("lin", (v,), sort)


def _join(a, b):
    return "R" if "R" in (a.sort, b.sort) else "I"


def add(a, b, kb=1):
    d = {}
    for c, at in a.args[1:]:
        d[at] = c
    for c, at in b.args[1:]:
        d[at] = d.get(at, 0) + kb * c
    return lin(d, a.args[0] + kb * b.args[0], _join(a, b))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 0:
        return num(0, a.sort)
    return lin({at: c * k for c, at in a.args[1:]}, a.args[0] * k,
               "R" if (a.sort == "R" or isinstance(k, Fraction)) else "I")


def mul(a, b):
    if is_const(a):
        return scale(b, a.args[0]) if b.sort == _join(a, b) else scale(to_real(b), a.args[0])
    if is_const(b):
        return mul(b, a)
    s = _join(a, b)
    if a.h > b.h:
        a, b = b, a
    return lin({_mk("mul", (a, b), s): 1}, 0, s)


def to_real(a):
    if a.sort == "R":
        return a
    return _mk("lin", a.args, "R")


def idiv(a, k):
    if is_const(a):
        return num(a.args[0] // k, "I")
    return lin({_mk("div", (a, k), "I"): 1}, 0, "I")


def imod(a, k):
    if is_const(a):
        return num(a.args[0] % k, "I")
    return lin({_mk("mod", (a, k), "I"): 1}, 0, "I")


def floor(a):
    """floor of a Real term, an Int term."""
    if a.sort == "I":
        return a
    if is_const(a):
        import math
        return num(math.floor(a.args[0]), "I")
    return lin({_mk("floor", (a,), "I"): 1}, 0, "I")


def le0(l):
    if is_const(l):
        return const_bool(l.args[0] <= 0)
    if l.sort == "I":
        from math import gcd
        g = 0
        for c, _ in l.args[1:]:
            g = gcd(g, c)
        if g > 1:
            # sum c_i x_i + k <= 0  <=>  sum (c_i/g) x_i <= floor(-k/g)
            k = -((-l.args[0]) // g)
            l = lin({a: c // g for c, a in l.args[1:]}, k, "I")
    return _mk("le0", (l,), "B")


def lt0(l):
    if l.sort == "I":
        return le0(add(l, num(1, "I")))
    if is_const(l):
        return const_bool(l.args[0] < 0)
    return _mk("lt0", (l,), "B")


def eq0(l):
    if is_const(l):
        return const_bool(l.args[0] == 0)
    if l.args[1][0] < 0:
        l = scale(l, -1)
    if l.sort == "I":
        from math import gcd
        g = 0
        for c, _ in l.args[1:]:
            g = gcd(g, c)
        if l.args[0] % g:
            return FALSE
        if g > 1:
            l = lin({a: c // g for c, a in l.args[1:]}, l.args[0] // g, "I")
    return _mk("eq0", (l,), "B")


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def eq(a, b):
    if a.sort == "B":
        if b.sort != "B":
            return FALSE
        return iff(a, b)
    if b.sort == "B":
        return FALSE
    return eq0(sub(a, b))


# ------------------------------------------------------------------ booleans
def not_(a):
    n = a.neg
    if n is not None:
        return n
    if a is TRUE:
        n = FALSE
    elif a is FALSE:
        n = TRUE
    elif a.op == "not":
        n = a.args[0]
    elif a.op == "le0":
        l = a.args[0]
        if l.sort == "I":      # not (l <= 0)  <=>  1 - l <= 0
            n = le0(add(num(1, "I"), l, -1))
        else:
            n = lt0(scale(l, -1))
    elif a.op == "lt0":
        n = le0(scale(a.args[0], -1))
    else:
        n = _mk("not", (a,), "B")
    a.neg = n
    if n.neg is None:
        n.neg = a
    return n


def and_(*xs):
    out = []
    seen = set()
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            stack.extend(reversed(x.args))
            continue
        if x in seen:
            continue
        if x.neg is not None and x.neg in seen:
            return FALSE
        seen.add(x)
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), "B")


def or_(*xs):
    out = []
    seen = set()
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == "or":
            stack.extend(reversed(x.args))
            continue
        if x in seen:
            continue
        if x.neg is not None and x.neg in seen:
            return TRUE
        seen.add(x)
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), "B")


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if a.neg is b:
        return FALSE
    if a.h > b.h:
        a, b = b, a
    return _mk("iff", (a, b), "B")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        return _mk("ite", (c, a, b), "B")
    s = _join(a, b)
    return lin({_mk("ite", (c, a, b), s): 1}, 0, s)


# ---------------------------------------------------------------- evaluation
def evaluate(t, m, memo):
    """Value of t under the assignment m (name -> python value)."""
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "var":
        r = m[t.args[0]]
    elif op == "lin":
        r = t.args[0]
        for c, a in t.args[1:]:
            r = r + c * evaluate(a, m, memo)
    elif op == "not":
        r = not evaluate(t.args[0], m, memo)
    elif op == "and":
        r = True
        for x in t.args:
            if not evaluate(x, m, memo):
                r = False
                break
    elif op == "or":
        r = False
        for x in t.args:
            if evaluate(x, m, memo):
                r = True
                break
    elif op == "iff":
        r = evaluate(t.args[0], m, memo) == evaluate(t.args[1], m, memo)
    elif op == "ite":
        r = evaluate(t.args[1] if evaluate(t.args[0], m, memo) else t.args[2], m, memo)
    elif op == "le0":
        r = evaluate(t.args[0], m, memo) <= 0
    elif op == "lt0":
        r = evaluate(t.args[0], m, memo) < 0
    elif op == "eq0":
        r = evaluate(t.args[0], m, memo) == 0
    elif op == "mul":
        r = evaluate(t.args[0], m, memo) * evaluate(t.args[1], m, memo)
    elif op == "div":
        r = evaluate(t.args[0], m, memo) // t.args[1]
    elif op == "mod":
        r = evaluate(t.args[0], m, memo) % t.args[1]
    elif op == "floor":
        import math
        r = math.floor(evaluate(t.args[0], m, memo))
    else:
        raise AssertionError(op)
    memo[t] = r
    return r


# --------------------------------------------------------------- conversion
def to_z3(t):
    if t.z is not None:
        return t.z
    import z3
    op = t.op
    a = t.args
    if op == "true":
        z = z3.BoolVal(True)
    elif op == "false":
        z = z3.BoolVal(False)
    elif op == "var":
        z = {"B": z3.Bool, "I": z3.Int, "R": z3.Real}[t.sort](a[0])
    elif op == "lin":
        mkc = z3.IntVal if t.sort == "I" else (lambda v: z3.Q(Fraction(v).numerator, Fraction(v).denominator))
        parts = []
        for c, at in a[1:]:
            x = to_z3(at)
            if t.sort == "R" and at.sort == "I":
                x = z3.ToReal(x)
            parts.append(x if c == 1 else mkc(c) * x)
        if a[0] != 0 or not parts:
            parts.append(mkc(a[0]))
        z = parts[0] if len(parts) == 1 else z3.Sum(parts)
    elif op == "not":
        z = z3.Not(to_z3(a[0]))
    elif op == "and":
        z = z3.And([to_z3(x) for x in a])
    elif op == "or":
        z = z3.Or([to_z3(x) for x in a])
    elif op == "iff":
        z = to_z3(a[0]) == to_z3(a[1])
    elif op == "ite":
        x, y = to_z3(a[1]), to_z3(a[2])
        if t.sort == "R":
            x = z3.ToReal(x) if a[1].sort == "I" else x
            y = z3.ToReal(y) if a[2].sort == "I" else y
        z = z3.If(to_z3(a[0]), x, y)
    elif op in ("le0", "lt0", "eq0"):
        x = to_z3(a[0])
        z = x <= 0 if op == "le0" else x < 0 if op == "lt0" else x == 0
    elif op == "mul":
        x, y = to_z3(a[0]), to_z3(a[1])
        if t.sort == "R":
            x = z3.ToReal(x) if a[0].sort == "I" else x
            y = z3.ToReal(y) if a[1].sort == "I" else y
        z = x * y
    elif op == "div":
        z = to_z3(a[0]) / z3.IntVal(a[1])
    elif op == "mod":
        z = to_z3(a[0]) % z3.IntVal(a[1])
    elif op == "floor":
        z = z3.ToInt(to_z3(a[0]))
    else:
        raise AssertionError(op)
    t.z = z
    return z


def show(t):
    op = t.op
    if op == "var":
        return t.args[0]
    if op in ("true", "false"):
        return op
    if op == "lin":
        s = " + ".join([(show(a) if c == 1 else f"{c}*{show(a)}") for c, a in t.args[1:]] +
                       ([str(t.args[0])] if t.args[0] or len(t.args) == 1 else []))
        return s if len(t.args) <= 2 else f"({s})"
    return f"({op} {' '.join(show(x) if isinstance(x, T) else str(x) for x in t.args)})"
