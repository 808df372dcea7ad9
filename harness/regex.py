"""C17 (regular expressions end to end), C18 (shunting-yard), C19 (algebra),
C43 (tokenize), C44 (bracket, repetition and escape parsers).

The letters of the expressions are symbols of an unbounded alphabet and the
words are symbolic; the parsing of the expression goes through the model of
`re` (symex/symre.py), which branches on symbolic characters.
"""
from .common import *
from .nfa import NModel, norm, edges_of, run_dfa, lang, power, star, repeat


# ------------------------------------------------------------ expressions
LEAF, UN, BIN = "leaf", "un", "bin"

UNARY = {"?": (0, 1), "*": (0, None), "+": (1, None)}
COUNTS = {"{0}": (0, 0), "{2}": (2, 2), "{1,}": (1, None), "{,2}": (0, 2), "{0,1}": (0, 1), "{1,2}": (1, 2), "{2,3}": (2, 3), "{ 1 , 2 }": (1, 2),
          "{,}": (0, None), "{ 2 }": (2, 2), "{2,}": (2, None), "{0,2}": (0, 2), "{1}": (1, 1)}


def gen(ctx, size, ops, name="t"):
    """An arbitrary syntax tree with at most `size` operators."""
    kind = ctx.choice(name, [LEAF] if size == 0 else [LEAF, UN, BIN])
    if kind == LEAF:
        return (LEAF, ctx.sym(name + "a"))
    if kind == UN:
        op = ctx.choice(name + "o", ops)
        return (UN, op, gen(ctx, size - 1, ops, name + "0"))
    op = ctx.choice(name + "o", [".", "|"])
    left = ctx.choice(name + "n", range(size)) if size > 1 else 0
    return (BIN, op, gen(ctx, left, ops, name + "0"), gen(ctx, size - 1 - left, ops, name + "1"))


LEVEL = {"|": 0, ".": 1}


def show(t, full, level=0, sep=""):
    """The expression, with all the parentheses or only the needed ones."""
    if t[0] == LEAF:
        return (t[1],)
    if t[0] == UN:
        r = show(t[2], full, 2, sep) + tuple(t[1])
        l = 2
    else:
        l = LEVEL[t[1]]
        mid = ("|",) if t[1] == "|" else tuple(sep)
        r = show(t[2], full, l, sep) + mid + show(t[3], full, l + 1, sep)
    if full or l < level:
        r = ("(",) + r + (")",)
    return r


def member(t, w):
    """A[i][j]: formula `w[i:j] is in the language of t`"""
    n = len(w)
    if t[0] == LEAF:
        return [[Eq(w[i], t[1]) if j == i + 1 else False for j in range(n + 1)] for i in range(n + 1)]
    if t[0] == BIN:
        A, B = member(t[2], w), member(t[3], w)
        if t[1] == "|":
            return [[Or(A[i][j], B[i][j]) for j in range(n + 1)] for i in range(n + 1)]
        return [[Or([And(A[i][k], B[k][j]) for k in range(i, j + 1)] or [False]) for j in range(n + 1)] for i in range(n + 1)]
    lo, hi = UNARY.get(t[1]) or COUNTS[t[1]]
    A = member(t[2], w)
    sub = lambda i, j: [[A[i + x][i + y] for y in range(j - i + 1)] for x in range(j - i + 1)]
    return [[repeat(sub(i, j), j - i, lo, hi) if j >= i else False for j in range(n + 1)] for i in range(n + 1)]


def text(ctx, cs):
    if ctx.symbolic and not all(isinstance(c, str) for c in cs):
        return SymWord(cs)
    return "".join(cs)


def check_nfa(ctx, g, w, want, what):
    M = NModel(0)
    M.V = sorted(g.vertices())
    M.tr = [[None, q, a, r] for q, a, r in norm(g, list(g.edges()))]
    M.init = set(g.initials)
    M.fin = {q: g.is_final(q) for q in M.V}
    ctx.check(len(M.init) == 1 and sum(1 for q in M.V if M.fin[q]) == 1, "one initial state and one final state")
    ctx.check(Iff(M.acc(w), want), what)


@job("C17",
     quick=[dict(size=2, L=3, some=["?", "*", "+"]), dict(size=1, L=4), dict(size=2, L=2), dict(size=3, L=2, some=["?", "+"])],
     thorough=[dict(size=3, L=3, some=["?", "*", "+"]), dict(size=2, L=4), dict(size=3, L=3, some=["{1,2}", "{2,}", "?"])],
     covers=["accepted", "rejected"])
def regexp_language(ctx, size, L, some=None):
    """compile_nfa / compile_dfa of an arbitrary expression with at most `size`
    operators over unbounded letters: words of length <= L."""
    from pybgl.regexp import compile_nfa, compile_dfa
    t = gen(ctx, size, some or [*UNARY, *COUNTS])
    e = text(ctx, show(t, ctx.choice("parens", ["minimal", "full"]) == "full"))
    w = ctx.word("w", ctx.choice("len", range(L + 1)))
    want = member(t, w)[0][len(w)]
    ctx.cover("accepted", And(len(w) > 0, want))
    ctx.cover("rejected", Not(want))
    if ctx.choice("as", ["nfa", "dfa"]) == "nfa":
        check_nfa(ctx, compile_nfa(e), w, want, "compile_nfa(e) accepts the words e denotes")
    else:
        d = compile_dfa(e, complete=ctx.choice("complete", [False, True]))
        ctx.check(Iff(run_dfa(edges_of(d), d.is_final, d.initial(), w), want), "compile_dfa(e) accepts the words e denotes")


def cat(*xs):
    t = xs[0]
    for x in xs[1:]:
        t = (BIN, ".", t, x)
    return t


def alt(*xs):
    t = xs[0]
    for x in xs[1:]:
        t = (BIN, "|", t, x)
    return t


def un(op, t):
    return (UN, op, t) if op else t


def leaf(a):
    return (LEAF, a)


A, B, C = leaf("a"), leaf("b"), leaf("c")
# longer expressions: o and p are arbitrary operators, x an arbitrary letter
TEMPLATES = {
    "words": lambda o, p, x: cat(un("*", alt(cat(A, x), B)), un(o, C), un(p, alt(A, cat(B, C)))),
    "nested": lambda o, p, x: un(o, cat(un(p, alt(A, cat(x, B))), un("?", C), B)),
    "choices": lambda o, p, x: alt(cat(A, un(o, x), B), cat(un(p, A), C), cat(B, A), un("+", alt(C, x))),
    "tail": lambda o, p, x: cat(A, un("?", cat(B, un(o, alt(A, x)), un("?", C))), un(p, un("*", cat(x, A)))),
}
HOLES = ["", "?", "*", "+", "{0}", "{2}", "{2,}", "{,2}", "{2,3}"]


def accepts_formula(g, w):
    """formula: the (concrete) NFA accepts the symbolic word"""
    tr = norm(g, list(g.edges()))
    eps = {}
    for q, a, r in tr:
        if a is None:
            eps.setdefault(q, []).append(r)
    clo = {}
    for q in g.vertices():
        clo[q], todo = {q}, [q]
        while todo:
            for r in eps.get(todo.pop(), []):
                if r not in clo[q]:
                    clo[q].add(r)
                    todo.append(r)
    S = {r: True for q in g.initials for r in clo[q]}
    for a in w:
        T = {}
        for q, b, r in tr:
            if b is not None and S.get(q, False) is not False:
                c = And(S[q], Eq(a, b))
                for v in clo[r]:
                    T.setdefault(v, []).append(c)
        S = {v: Or(cs) for v, cs in T.items()}
    return Or([c for q, c in S.items() if g.is_final(q)] or [False])


@job("C17",
     quick=[dict(name=x, L=4) for x in TEMPLATES],
     thorough=[dict(name=x, L=6) for x in TEMPLATES])
def regexp_templates(ctx, name, L):
    """compile_nfa / compile_dfa of longer expressions with two arbitrary
    operators and an arbitrary letter: every word of length <= L over a, b, c."""
    from pybgl.regexp import compile_nfa, compile_dfa
    t = TEMPLATES[name](ctx.choice("o", HOLES), ctx.choice("p", HOLES), leaf(ctx.choice("x", ["a", "b", "c"])))
    e = "".join(show(t, False))
    g, d = compile_nfa(e), compile_dfa(e)
    es = edges_of(d)
    for n in range(L + 1):
        w = ctx.word(f"w{n}_", n, alpha=["a", "b", "c"])
        want = member(t, w)[0][n]
        ctx.check(Iff(accepts_formula(g, w), want), "compile_nfa(e) accepts the words e denotes (long expressions)")
        ctx.check(Iff(run_dfa(es, d.is_final, d.initial(), w), want), "compile_dfa(e) accepts the words e denotes (long expressions)")


@job("C17", quick=[dict(top=12)], thorough=[dict(top=25)])
def regexp_counts(ctx, top):
    """Repetitions with bounds of two digits, of a letter or of a word: words of
    about as many letters, one of which is arbitrary."""
    from pybgl.regexp import compile_nfa
    lo = ctx.choice("lo", [0, 4, 9, 10, top])
    hi = ctx.choice("hi", [h for h in (lo, lo + 1, 11, top) if h >= lo] + [None])
    op = "{%d,}" % lo if hi is None else "{%d}" % lo if hi == lo and ctx.choice("short", [True, False]) else "{%d,%d}" % (lo, hi)
    x = ctx.choice("operand", ["a", "(ab)"])
    g = compile_nfa(x + op + "b?")
    one = x.strip("()")
    k = ctx.choice("k", sorted({max(lo - 1, 0), lo, lo + 1} | ({hi, hi + 1} if hi is not None else {lo + 3})))
    w = list(one * k + "b" * ctx.choice("tail", [0, 1]))
    if w:
        w[ctx.choice("at", [0, len(w) // 2, len(w) - 1])] = ctx.sym("letter", ["a", "b"])
    in_ = lambda m: lo <= m and (hi is None or m <= hi)
    words = [one * m + t for m in range(k + 2) for t in ("", "b") if in_(m)]
    want = Or([And([Eq(c, y) for c, y in zip(w, v)] or [True]) for v in words if len(v) == len(w)] or [False])
    ctx.check(Iff(accepts_formula(g, w), want), "long repetitions accept the words they denote")


SPECIAL = list("|[]{}.+*?()^$\\") + ["a", "-", ",", "2", " "]


@job("C17", quick=[dict(n=2, L=2)], thorough=[dict(n=3, L=3)], covers=["accepted", "rejected"])
def escaped_language(ctx, n, L):
    """re_escape(s) denotes exactly {s}: s of length <= n over the special
    characters and others, any word of length <= L."""
    from pybgl.regexp import compile_nfa
    from pybgl.shunting_yard_postfix import re_escape
    k = ctx.choice("n", range(n + 1))
    s = "".join(ctx.choice(f"s{i}", SPECIAL) for i in range(k))
    w = ctx.word("w", ctx.choice("len", range(L + 1)), alpha=SPECIAL)
    want = And(len(w) == k, *[Eq(a, b) for a, b in zip(w, s)])
    ctx.cover("accepted", And(k > 0, want))
    ctx.cover("rejected", Not(want))
    check_nfa(ctx, compile_nfa(re_escape(s)), w, want, "re_escape(s) matches s only")


CLASSES = [("[%a%b]", "set"), ("[^%a]", "notset"), (r"\d", "d"), (r"\D", "D"), (r"\w", "w"), (r"\W", "W"), (r"\s", "s"), (r"\S", "S"),
           (r"\n", "\n"), (r"\t", "\t"), (r"\a", "\a"), (r"\b", "\b"), (r"\f", "\f"), (r"\r", "\r"), (r"\v", "\v"), ("[b-d]", "bd"), (r"[\d+-]", "d+-"),
           (r"[^\w]", "W"), (r"[a\]b]", "=a]b"), (r"[\]]", "=]"), (r"[^\]b]", "!]b"), ("[a-c-e]", "=abc-e"), ("[(|]", "=(|"), ("[.*]", "=.*"),
           (r"[\\]", "=\\"), ("([ab]|[cd])", "=abcd"), ("[{2}]", "={2}"), ("[[a]", "=[a"), (r"(\d|\|)", "=0123456789|")]


def class_member(kind, x, y, c):
    """formula: the one-letter class accepts c (of the printable alphabet)"""
    import string
    sets = {"d": string.digits, "w": string.digits + string.ascii_letters, "s": " \t", "bd": "bcd", "d+-": string.digits + "+-"}
    in_ = lambda s: Or([Eq(c, a) for a in s] or [False])
    if kind[0] in "=!" and len(kind) > 1:
        return in_(kind[1:]) if kind[0] == "=" else Not(in_(kind[1:]))
    if kind == "set":
        return Or(Eq(c, x), Eq(c, y))
    if kind == "notset":
        return Not(Eq(c, x))
    if kind in sets:
        return in_(sets[kind])
    if kind.lower() in sets and kind.isupper():
        return Not(in_(sets[kind.lower()]))
    return Eq(c, kind)


CONTEXTS = ["%ez", "z%e", "z{1}%e", "z+%e", "z?z%e", "(z)%e", "(z|zz)%e", "z*%e", "%e{2}", "%e*z+", r"%e\d", "%e[y-z]", "%e|zz", "z(%e)", "z%e?%e", "z(a|%e)?"]


@job("C17", quick=[dict()], covers=["accepted", "rejected"])
def class_language(ctx):
    """Character classes and escape sequences inside an expression: [xy]z,
    z\\d, ... against every word of two printable characters."""
    import string
    from pybgl.regexp import compile_nfa
    fmt, kind = ctx.choice("class", CLASSES)
    x = ctx.choice("x", ["a", "0", "-"]) if "%a" in fmt else "a"
    y = ctx.choice("y", ["b", "+", "."]) if "%b" in fmt else "b"
    e = fmt.replace("%a", x).replace("%b", y)
    if fmt == "[%a%b]" and x != "-" and y == "-":
        return
    form = ctx.choice("form", CONTEXTS)
    g = compile_nfa(form.replace("%e", e))
    w = ctx.word("w", 2, alpha=list(string.printable))
    inside = lambda i: class_member(kind, x, y, w[i])
    is_z = lambda i: Eq(w[i], "z")
    want = {"%ez": lambda: And(is_z(1), inside(0)), "%e{2}": lambda: And(inside(0), inside(1)), "%e*z+": lambda: And(Or(is_z(0), inside(0)), is_z(1)),
            "%e\\d": lambda: And(inside(0), escape_member("\\d", w[1])), "%e[y-z]": lambda: And(inside(0), Or(is_z(1), Eq(w[1], "y"))), "%e|zz": lambda: And(is_z(0), is_z(1)),
            "z(a|%e)?": lambda: And(is_z(0), Or(Eq(w[1], "a"), inside(1)))}.get(form, lambda: And(is_z(0), inside(1)))()
    ctx.cover("accepted", want)
    ctx.cover("rejected", Not(want))
    check_nfa(ctx, g, w, want, "the class accepts its characters only")


# --------------------------------------------------------- shunting-yard
def gen_infix(ctx, n, pre, post, par):
    """An arbitrary well-formed infix expression: n operands, up to `pre`
    prefix and `post` postfix operators, up to `par` pairs of parentheses.
    -> tokens: ("x", i), "(", ")", ("p", i), ("q", i), ("o", i)"""
    toks = []
    opened = np = nq = no = pars = 0
    for k in range(n):
        while True:
            c = ctx.choice(f"f{len(toks)}", ["x"] + (["p"] if np < pre else []) + (["("] if pars < par else []))
            if c == "x":
                break
            if c == "p":
                toks.append(("p", np))
                np += 1
            else:
                toks.append("(")
                opened += 1
                pars += 1
        toks.append(("x", k))
        while True:
            c = ctx.choice(f"g{len(toks)}", ["go"] + (["q"] if nq < post else []) + ([")"] if opened else []))
            if c == "go":
                break
            if c == "q":
                toks.append(("q", nq))
                nq += 1
            else:
                toks.append(")")
                opened -= 1
        if k == n - 1 or not (opened or ctx.choice(f"h{len(toks)}", [True, False])):
            break
        toks.append(("o", no))
        no += 1
    return toks + [")"] * opened


def tree(toks, prec, right):
    """Reference parser (precedence climbing): the syntax tree of the infix
    expression.  prec[t]: precedence; right[t]: right-associative?"""
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def primary():
        t = peek()
        pos[0] += 1
        if t == "(":
            r = expr(lambda o: True)
            pos[0] += 1
            return r
        if t[0] == "p":
            return (t, expr(lambda o: Or(prec[o] > prec[t], And(prec[o] == prec[t], o[0] == "o", right[o]))))
        return (t,)

    def expr(takes):
        l = primary()
        while True:
            t = peek()
            if t is None or t == ")" or not takes(t):
                return l
            pos[0] += 1
            if t[0] == "q":
                l = (t, l)
            elif right[t]:
                l = (t, l, expr(lambda o: prec[o] >= prec[t]))
            else:
                l = (t, l, expr(lambda o: prec[o] > prec[t]))
    return expr(lambda o: True)


def rpn(t):
    return [x for c in t[1:] for x in rpn(c)] + [t[0]]


def table(ctx, toks, levels):
    """An arbitrary operator table for these tokens: symbolic precedences and
    associativities.  Binary operators of the same precedence have the same
    associativity; the postfix operators have one precedence, above the others."""
    Y = module("shunting_yard_postfix")
    ops = [t for t in toks if t[0] in ("o", "p", "q")]
    prec, right, m = {}, {}, {}
    for t in ops:
        name = f"{t[0]}{t[1]}"
        if t[0] == "o":
            prec[t] = ctx.int("prec" + name, 0, levels - 1)
            right[t] = ctx.bool("right" + name)
            a = Ite(right[t], Y.RIGHT, Y.LEFT)
        elif t[0] == "p":
            prec[t] = ctx.int("prec" + name, 0, levels)
            right[t] = True
            a = Y.RIGHT
        else:
            prec[t] = levels
            right[t] = False
            a = Y.LEFT
        for u in prec:
            if u[0] == t[0] == "o" and u != t:
                ctx.assume(Implies(Eq(prec[u], prec[t]), Iff(right[u], right[t])))
        m[name] = Y.Op(cardinality=2 if t[0] == "o" else 1, precedence=prec[t], associativity=a)
    return prec, right, m


def tok(t):
    return t if isinstance(t, str) else f"{t[0]}{t[1]}"


@job("C18",
     quick=[dict(n=3, pre=1, post=0, par=1, levels=3), dict(n=4, pre=0, post=0, par=1, levels=3), dict(n=2, pre=2, post=1, par=1, levels=2),
            dict(n=3, pre=0, post=1, par=1, levels=2), dict(n=3, pre=1, post=1, par=1, levels=3), dict(n=4, pre=1, post=0, par=1, levels=3),
            dict(n=6, pre=0, post=0, par=0, levels=2)],
     thorough=[dict(n=4, pre=1, post=1, par=1, levels=3), dict(n=5, pre=0, post=0, par=1, levels=4), dict(n=3, pre=2, post=1, par=2, levels=3), dict(n=4, pre=2, post=0, par=2, levels=3)],
     covers=["right", "left", "parenthesis"])
def postfix(ctx, n, pre, post, par, levels):
    """shunting_yard_postfix and shunting_yard_ast of an arbitrary infix
    expression (up to n operands; prefix, postfix and binary operators;
    parentheses), the precedences and associativities being symbolic."""
    Y = module("shunting_yard_postfix")
    toks = gen_infix(ctx, n, pre, post, par)
    prec, right, m = table(ctx, toks, levels)
    expr = [tok(t) for t in toks]
    what = ctx.choice("what", ["postfix", "ast"])
    if what == "postfix":
        pushed, stacked, popped = [], [], []

        class Vis(Y.DefaultShuntingYardVisitor):
            def on_push_output(self, a):
                pushed.append(a)

            def on_push_operator(self, a):
                stacked.append(a)

            def on_pop_operator(self, a):
                popped.append(a)
        got = list(Y.shunting_yard_postfix(iter(expr), m, vis=Vis()))
        ctx.check(pushed == got, "on_push_output is called once per output token, in order")
        ctx.check(sorted(stacked) == sorted(popped) == sorted(a for a in expr if a in m or a == "("),
                  "every operator is pushed and popped once")
        ref = tree(toks, prec, right)
        ctx.check(got == [tok(t) for t in rpn(ref)], "the output is the reverse Polish notation of the expression")
    else:
        ast, root = Y.shunting_yard_ast(iter(expr), m)
        ref = tree(toks, prec, right)

        def read(u):
            return (ast.symbol(u), *[read(v) for v in ast.children(u)])

        def plain(t):
            return (tok(t[0]), *map(plain, t[1:]))
        ctx.check(read(root) == plain(ref), "the AST is the syntax tree of the expression")
        ctx.check(ast.num_vertices() == len(rpn(ref)) == ast.num_edges() + 1, "the AST is a tree")
        ctx.check(ast.root == root, "the root of the AST is set")
        if pre == 0:
            par_ = lambda t: tok(t[0]) if len(t) == 1 else f"({par_(t[1])}){tok(t[0])}" if len(t) == 2 else \
                f"({par_(t[1])}{tok(t[0])}{par_(t[2])})"
            ctx.check(ast.to_expr() == par_(ref), "to_expr() is the parenthesised expression")
    ts = [t for t in right if t[0] == "o"]
    ctx.cover("right", Or([And(Eq(prec[t], prec[u]), right[t]) for t in ts for u in ts if t != u] or [False]))
    ctx.cover("left", Or([And(Eq(prec[t], prec[u]), Not(right[t])) for t in ts for u in ts if t != u] or [False]))
    ctx.cover("parenthesis", "(" in expr)


class Term:
    """An operand of which only the operations applied to it are known."""

    def __init__(self, t):
        self.t = t

    def __add__(self, o): return Term(("+", self.t, o.t))
    def __sub__(self, o): return Term(("-", self.t, o.t))
    def __mul__(self, o): return Term(("*", self.t, o.t))
    def __truediv__(self, o): return Term(("/", self.t, o.t))
    def __pow__(self, o): return Term(("^", self.t, o.t))
    def __neg__(self): return Term(("u-", self.t))
    def __pos__(self): return self


ALG_PREC = {"^": 4, "*": 3, "/": 3, "+": 2, "-": 2, "u-": 3, "u+": 3}


def alg_tokens(ctx, n, pre, par, bins):
    toks = gen_infix(ctx, n, pre, 0, par)
    name = {t: (ctx.choice(f"b{t[1]}", bins) if t[0] == "o" else ctx.choice(f"u{t[1]}", ["u-", "u+"]))
            for t in toks if t[0] in ("o", "p")}
    prec = {t: ALG_PREC[a] for t, a in name.items()}
    right = {t: a == "^" for t, a in name.items()}
    return toks, name, tree(toks, prec, right)


@job("C19",
     quick=[dict(n=3, pre=1, par=1), dict(n=4, pre=0, par=1), dict(n=4, pre=1, par=1)],
     thorough=[dict(n=4, pre=2, par=0), dict(n=3, pre=2, par=2), dict(n=5, pre=0, par=0)],
     covers=["power", "unary"])
def algebra_values(ctx, n, pre, par):
    """shunting_yard_compute(tokens, tokenize=False) over symbolic operands:
    arbitrary reals (+, -, *, unary) and free terms (all the operators)."""
    Y = module("shunting_yard_postfix")
    kind = ctx.choice("operands", ["real", "free"])
    toks, name, ref = alg_tokens(ctx, n, pre, par, ["+", "-", "*"] if kind == "real" else ["+", "-", "*", "/", "^"])
    vals = {}
    for t in toks:
        if t[0] == "x":
            if kind == "free":
                vals[t] = Term(t)
            else:
                v = ctx.real(f"x{t[1]}")
                vals[t] = opaque(v)
    ctx.cover("power", "^" in name.values())
    ctx.cover("unary", any(a in ("u-", "u+") for a in name.values()))
    got = Y.shunting_yard_compute([vals.get(t, name.get(t, t)) for t in toks], tokenize=False)

    def ev(t):
        if len(t) == 1:
            return vals[t[0]]
        a = name[t[0]]
        x = ev(t[1])
        if len(t) == 2:
            return -x if a == "u-" else x
        y = ev(t[2])
        return x + y if a == "+" else x - y if a == "-" else x * y if a == "*" else x / y if a == "/" else x ** y
    if kind == "free":
        want = ev(ref)
        ctx.check(got.t == want.t, "the operations are those of the expression")
    else:
        # one variable per operation: the solver relates them to the result
        defs = []

        def name_it(t):
            if len(t) == 1:
                return vals[t[0]]
            a, args = name[t[0]], [name_it(u) for u in t[1:]]
            v = ctx.real(f"v{t[0][0]}{t[0][1]}")
            x, y = args[0], args[-1]
            e = (-x if a == "u-" else x) if len(args) == 1 else x + y if a == "+" else x - y if a == "-" else x * y
            defs.append(Eq(v, e))
            return v
        top = name_it(ref)
        ctx.check(Implies(And(defs), Eq(got, top)), "the result is the value of the expression")


@job("C19", quick=[dict(n=2, pre=1, par=1), dict(n=3, pre=0, par=0)], thorough=[dict(n=3, pre=1, par=1), dict(n=3, pre=2, par=0)], covers=["space"])
def algebra_tokens(ctx, n, pre, par):
    """tokenizer_alg of an arbitrary expression: operators, parentheses,
    unary signs, decimal numbers, spaces anywhere."""
    Y = module("shunting_yard_postfix")
    toks, name, ref = alg_tokens(ctx, n, pre, par, ["+", "-", "*", "/", "^"])
    sp = ctx.choice("spaces", ["", " ", "\t "])
    at = ctx.choice("spaceat", range(len(toks) + 1)) if sp else 0
    nums = ["7", "12", "3.25"]
    text, want = "", []
    for i, t in enumerate(toks):
        if i == at:
            text += sp
        a = name.get(t, t)
        if t[0] == "x":
            text += nums[t[1] % 3]
            want.append(float(nums[t[1] % 3]))
        else:
            text += a[-1]
            want.append(a)
    if at == len(toks):
        text += sp
    ctx.cover("space", bool(sp))
    ctx.check(list(Y.tokenizer_alg(text)) == want, "the tokens of the expression")


def opaque(v):
    from symex.values import OpaqueNum
    return OpaqueNum(v.t) if isinstance(v, SymNum) else v


# ------------------------------------------------------------- tokenize
PATTERNS = [" +", "(a| )b", "a", "ab", "a|b", "ab|a", "a+", "a*", "[ab]c", "(a)(b)?", "b?", "a.c", "^a", "a$", "[^a]b"]


@job("C43", quick=[dict(L=6)], thorough=[dict(L=8)], covers=["match", "gap"])
def tokenize_calls(ctx, L):
    """tokenize(re, s) for s an arbitrary word of length <= L over a,b,c and
    any pattern of a list: the pieces handed to the visitor rebuild s, the
    matched ones are the successive non-overlapping matches."""
    import re
    from pybgl.tokenize import tokenize, TokenizeVisitor
    p = ctx.choice("pattern", PATTERNS)
    n = ctx.choice("n", range(L + 1))
    s = ctx.word("s", n, alpha=["a", "b", " " if " " in p else "c"])
    if ctx.symbolic:
        from symex.symre import SymPattern
        r = SymPattern(re.compile(p))
    else:
        r = re.compile(p)
    got = []

    class V(TokenizeVisitor):
        def on_matched(self, x, i, j, t):
            got.append((True, x, i, j, t))

        def on_unmatched(self, x, i, j, t):
            got.append((False, x, i, j, t))
    tokenize(r, s, V())
    tokenize(r, s)                          # the default visitor
    # reference: the successive matches
    spans = [(m.start(), m.end()) for m in r.finditer(s)]
    want, i = [], 0
    for a, b in spans:
        if a > i:
            want.append((False, i, a))
        if b > a:
            want.append((True, a, b))
        i = b
    if i < n:
        want.append((False, i, n))
    ctx.cover("match", any(x[0] for x in want))
    ctx.cover("gap", any(not x[0] for x in want) and any(x[0] for x in want))
    ctx.check(len(got) == len(want), "one call per matched and unmatched piece")
    for (m, x, i, j, t), (wm, wi, wj) in zip(got, want):
        ctx.check(m == wm and i == wi and j in ((wj,) if m or wj < n else (wj, None)), "the pieces are in order, with their positions")
        ctx.check(len(x) == wj - wi and And([Eq(a, b) for a, b in zip(x, s[wi:wj])]), "the pieces are the substrings")
        ctx.check(t is s, "the visitor is handed the whole string")


# ------------------------------------------------- bracket / repetition parsers
@job("C44", quick=[dict(items=2)], thorough=[dict(items=3)], covers=["in", "out", "reverse", "range", "hyphen after a range"])
def brackets(ctx, items):
    """parse_bracket of an arbitrary bracket expression with up to `items`
    items: characters, ranges with symbolic bounds, escaped classes, leading and
    trailing hyphens, complement; membership of an arbitrary character."""
    import string
    X = module("thompson_compile_nfa")
    custom = ctx.choice("alphabet", [False, True])
    alpha = sorted("abcdefgxyz 019+-\t^]*") if custom else sorted(string.printable)
    c = ctx.sym("c", alpha=sorted(string.printable))
    ins = []
    neg = ctx.choice("neg", [False, True])
    txt = "[^" if neg else "["
    ends = ctx.choice("hyphen", ["", "first", "last"])
    if ends == "first":
        txt += "-"
        ins.append(Eq(c, "-"))
    k = ctx.choice("k", range(items + 1))
    if k == 0 and not ends:
        return
    bad, kind = False, None
    for i in range(k):
        kinds = ["char", "range", "esc", "escrange", "bad"]
        if i or ends == "first" or neg:
            kinds.append("hat")
        if i and kind in ("range", "escrange"):
            kinds.append("hyphen")
        kind = ctx.choice(f"kind{i}", kinds)
        if kind == "hyphen":            # a hyphen after a range stands for itself
            ctx.cover("hyphen after a range")
            txt += "-"
            ins.append(Eq(c, "-"))
        elif kind == "escrange":
            lo = ctx.choice(f"lo{i}", ["\\*", "\\]", "\\t", "+"])
            hi = ctx.choice(f"hi{i}", ["\\^", "a", "9"] if lo != "+" else ["\\^"])
            l, h = lo[-1].replace("t", "\t"), hi[-1]
            bad = bad or l > h
            txt += lo + "-" + hi
            ins.append(Or([Eq(c, a) for a in alpha if l <= a <= h] or [False]))
        elif kind == "bad":
            txt += ctx.choice(f"bad{i}", ["d-b", "\\d-x", "a-\\w", "\\W-z", "a-^", "b-\\^", "z-A", "9-+", "\\*-\\t", "a-Z"])
            bad = True
        elif kind == "char":
            x = ctx.choice(f"x{i}", ["a", "0", "+", ".", "("])
            txt += x
            ins.append(Eq(c, x))
        elif kind == "hat":
            txt += "^"
            ins.append(Eq(c, "^"))
        elif kind == "range":
            lo = ctx.choice(f"lo{i}", "bcd") if items < 3 else "b"
            hi = ctx.choice(f"hi{i}", [y for y in "bcdf" if y >= lo])
            ctx.cover("range")
            txt += lo + "-" + hi
            ins.append(Or([Eq(c, a) for a in alpha if lo <= a <= hi] or [False]))
        else:
            e = ctx.choice(f"e{i}", [r"\d", r"\D", r"\s", r"\w", r"\W", r"\S", r"\t", r"\+", r"\|", r"\\"])
            txt += e
            ins.append(escape_member(e, c))
    if ends == "last":
        txt += "-"
        ins.append(Eq(c, "-"))
    try:
        got = X.parse_bracket(txt + "]", alpha if custom else None)
    except ValueError:
        ctx.check(bad, "a well-formed bracket expression is accepted")
        return
    ctx.check(not bad, "a class as a bound, or an empty range, is refused")
    if bad:
        return
    want = Or(ins)
    if neg:
        want = Not(want)
        ctx.cover("reverse")
    ctx.cover("in", want)
    ctx.cover("out", Not(want))
    inside = Or([Eq(c, a) for a in alpha])
    if neg:
        ctx.check(Implies(Or([Eq(c, a) for a in got] or [False]), inside), "a complement is taken within the alphabet")
    ctx.check(Implies(inside, Iff(Or([Eq(c, a) for a in got if a in alpha] or [False]), want)), "a character of the alphabet is in the set iff the expression says so")


def escape_member(e, c):
    import string
    classes = {"d": string.digits, "w": string.digits + string.ascii_letters, "s": " \t"}
    x = e[1]
    in_ = lambda s: Or([Eq(c, a) for a in s if a in c.alpha] or [False]) if isinstance(c, SymSym) else c in s
    if x in classes:
        return in_(classes[x])
    if x.lower() in classes:
        return Not(in_(classes[x.lower()]))
    return in_({"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}.get(x, x))


@job("C44", quick=[dict()], covers=["in", "out", "invalid"])
def escapes(ctx):
    """parse_escaped of every supported escape sequence, default and custom
    alphabets, membership of an arbitrary character; ValueError otherwise."""
    import string
    X = module("thompson_compile_nfa")
    custom = ctx.choice("alphabet", [False, True])
    alpha = sorted("abcz 019+-\t^|\\()") if custom else sorted(string.printable)
    ok = list("+*?.|[](){}^$\\abfnrtvdDsSwW")
    x = ctx.choice("x", ok + list("ABZqz9"))
    if x in ok and ctx.choice("before", [False, True]):       # read with another alphabet before
        other = X.parse_escaped("\\" + x, ["%", "5"] if x == "W" else ["%", "a"])
        ctx.check(x not in "DSW" or set(other) <= {"%", "5", "a"}, "a complement stays within the alphabet given")
        other.clear()
    try:
        got = X.parse_escaped("\\" + x, alpha if custom else None)
    except ValueError:
        got = None
    ctx.check((got is not None) == (x in ok), "exactly the supported sequences are accepted")
    ctx.cover("invalid", got is None)
    if got is None:
        return
    c = ctx.sym("c", alpha=alpha)
    want = escape_member("\\" + x, c)
    ctx.cover("in", want)
    ctx.cover("out", Not(want))
    ctx.check(Iff(Or([Eq(c, a) for a in got if a in alpha] or [False]), want), "the characters of the escape sequence")
    ctx.check(x not in "DSW" or set(got) <= set(alpha), "a complement stays within the alphabet")


@job("C44", quick=[dict(digits=2), dict(digits=1)], covers=["both", "one", "open", "invalid"])
def repetitions(ctx, digits):
    """parse_repetition of {m}, {m,n}, {m,}, {,n}, {,} with symbolic digits
    and spaces."""
    X = module("thompson_compile_nfa")
    D = list("0159") if digits == 2 else list("0123456789")
    form = ctx.choice("form", ["m", "m,n", "m,", ",n", ","])
    sp = [ctx.choice(f"sp{i}", ["", " "]) for i in range(4)]
    m = ctx.word("m", ctx.choice("lm", range(1, digits + 1)), alpha=D) if "m" in form else ""
    n = ctx.word("n", ctx.choice("ln", range(1, digits + 1)), alpha=D) if "n" in form else ""
    val = lambda w: Sum([digit(c) * 10 ** (len(w) - 1 - i) for i, c in enumerate(w)])
    s = "{" + sp[0] + m + sp[1]
    if "," in form:
        s = s + "," + sp[2] + n + sp[3]
    s = s + "}"
    vm = val(m) if m else 0
    vn = vm if form == "m" else val(n) if n else None
    bad = False if vn is None or form == "m" else vn < vm
    ctx.cover("both", form == "m,n")
    ctx.cover("one", form == "m")
    ctx.cover("open", vn is None)
    ctx.cover("invalid", bad)
    try:
        r = X.parse_repetition(s)
    except ValueError:
        ctx.check(bad, "a valid repetition is accepted")
        return
    ctx.check(Not(bad), "an upper bound below the lower one is refused")
    ctx.check(Eq(r[0], vm), "the lower bound")
    ctx.check((r[1] is None) if vn is None else False if r[1] is None else Eq(r[1], vn), "the upper bound")


def digit(c):
    if isinstance(c, SymSym):
        return Sum([Ite(Eq(c, a), int(a), 0) for a in c.alpha])
    return int(c)
