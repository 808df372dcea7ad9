from symex.runner import job
from symex.values import (And, Or, Not, Implies, Iff, Ite, Eq, Sum, Min, Max, Abs, Distinct, Xor,
                          SymBool, SymNum, SymSym, SymWord, lex_lt)
from symex.models import (sym_digraph, sym_ugraph, SymGraph, SymDfa, all_pairs, upper_pairs,
                          closure, is_acyclic, LazyDict, read_dfa, dfa_accepts, play, skeleton, SKELETON_DFAS)


def key(e):
    return (e.source, e.target, e.distinguisher)


def same_multiset(xs, ys, eq):
    """formula: the two lists are equal as multisets.  `eq` compares items."""
    if len(xs) != len(ys):
        return False
    cs = []
    for x in xs:
        # as many copies of x on both sides
        cs.append(Eq(Sum([eq(x, y) for y in xs]), Sum([eq(x, y) for y in ys])))
    for y in ys:
        cs.append(Or([eq(y, x) for x in xs]))
    return And(cs or [True])


def same_edge(e, f):
    return And(e.source == f.source, e.target == f.target, Eq(e.distinguisher, f.distinguisher))


class Again:
    """A view of `ctx` that gives the same answer to the same question, so that
    one observation can be made both before and after some operations (what the
    first one found must not be remembered by the library for the second)."""

    def __init__(self, ctx):
        self.ctx, self.known, self.n = ctx, {}, 0

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def choice(self, name, options):
        options = list(options)
        if name in self.known:
            if self.known[name] in options:
                return self.known[name]
            name += "'"
        v = self.known[name] = self.ctx.choice(name, options)
        return v

    def _value(self, kind, name, *args, **kw):
        if name not in self.known:
            self.known[name] = getattr(self.ctx, kind)(name, *args, **kw)
        return self.known[name]

    def sym(self, name, *args, **kw):
        return self._value("sym", name, *args, **kw)

    def word(self, name, *args, **kw):
        return self._value("word", name, *args, **kw)

    def bool(self, name, *args, **kw):
        return self._value("bool", name, *args, **kw)

    def int(self, name, *args, **kw):
        return self._value("int", name, *args, **kw)

    def observe(self, name, value):
        self.n += 1
        self.ctx.observe(f"{name}.{self.n}", value)


def module(name):
    """The module pybgl.<name> (the package also exports functions of that name)."""
    import importlib
    return importlib.import_module("pybgl." + name)


def glue(chars):
    return "".join(chars) if all(isinstance(c, str) for c in chars) else SymWord(chars)


def long_word(ctx, name, L, free, alpha, around):
    """a word of L letters, all of them `around` but for `free` consecutive
    ones, anywhere"""
    i = ctx.choice(f"{name}_at", range(L - free + 1))
    return glue([around] * i + list(ctx.word(name, free, alpha=alpha)) + [around] * (L - i - free))


class Renamed:
    """A view of `ctx` whose inputs have a prefix of their own."""

    def __init__(self, ctx, prefix):
        self._ctx, self._prefix = ctx, prefix

    def __getattr__(self, k):
        f = getattr(self._ctx, k)
        if k in ("sym", "choice", "int", "real", "bool", "word"):
            return lambda name, *a, **kw: f(self._prefix + name, *a, **kw)
        return f
